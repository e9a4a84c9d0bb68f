package ext

import (
	"fmt"
	"slices"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vh"
)

// casts are the types of the typed view, each with the kinds of the nodes which
// can be seen as one.
var casts = []struct {
	name  string
	kinds []syntax.SyntaxKind
	check func(n *syntax.SyntaxNode, kinds []syntax.SyntaxKind) error
}{
	{"Markup", []syntax.SyntaxKind{syntax.SyntaxKindMarkup}, checkCast[*syntax.Markup]},
	{"Text", []syntax.SyntaxKind{syntax.SyntaxKindText}, checkCast[*syntax.Text]},
	{"Space", []syntax.SyntaxKind{syntax.SyntaxKindSpace}, checkCast[*syntax.Space]},
	{"Linebreak", []syntax.SyntaxKind{syntax.SyntaxKindLinebreak}, checkCast[*syntax.Linebreak]},
	{"Parbreak", []syntax.SyntaxKind{syntax.SyntaxKindParbreak}, checkCast[*syntax.Parbreak]},
	{"Escape", []syntax.SyntaxKind{syntax.SyntaxKindEscape}, checkCast[*syntax.Escape]},
	{"Shorthand", []syntax.SyntaxKind{syntax.SyntaxKindShorthand}, checkCast[*syntax.Shorthand]},
	{"SmartQuote", []syntax.SyntaxKind{syntax.SyntaxKindSmartQuote}, checkCast[*syntax.SmartQuote]},
	{"Strong", []syntax.SyntaxKind{syntax.SyntaxKindStrong}, checkCast[*syntax.Strong]},
	{"Emph", []syntax.SyntaxKind{syntax.SyntaxKindEmph}, checkCast[*syntax.Emph]},
	{"Raw", []syntax.SyntaxKind{syntax.SyntaxKindRaw}, checkCast[*syntax.Raw]},
	{"RawLang", []syntax.SyntaxKind{syntax.SyntaxKindRawLang}, checkCast[*syntax.RawLang]},
	{"RawDelim", []syntax.SyntaxKind{syntax.SyntaxKindRawDelim}, checkCast[*syntax.RawDelim]},
	{"Link", []syntax.SyntaxKind{syntax.SyntaxKindLink}, checkCast[*syntax.Link]},
	{"Label", []syntax.SyntaxKind{syntax.SyntaxKindLabel}, checkCast[*syntax.Label]},
	{"Ref", []syntax.SyntaxKind{syntax.SyntaxKindRef}, checkCast[*syntax.Ref]},
	{"Heading", []syntax.SyntaxKind{syntax.SyntaxKindHeading}, checkCast[*syntax.Heading]},
	{"ListItem", []syntax.SyntaxKind{syntax.SyntaxKindListItem}, checkCast[*syntax.ListItem]},
	{"EnumItem", []syntax.SyntaxKind{syntax.SyntaxKindEnumItem}, checkCast[*syntax.EnumItem]},
	{"TermItem", []syntax.SyntaxKind{syntax.SyntaxKindTermItem}, checkCast[*syntax.TermItem]},
	{"Equation", []syntax.SyntaxKind{syntax.SyntaxKindEquation}, checkCast[*syntax.Equation]},
	{"Math", []syntax.SyntaxKind{syntax.SyntaxKindMath}, checkCast[*syntax.Math]},
	{"MathText", []syntax.SyntaxKind{syntax.SyntaxKindMathText}, checkCast[*syntax.MathText]},
	{"MathIdent", []syntax.SyntaxKind{syntax.SyntaxKindMathIdent}, checkCast[*syntax.MathIdent]},
	{"MathShorthand", []syntax.SyntaxKind{syntax.SyntaxKindMathShorthand}, checkCast[*syntax.MathShorthand]},
	{"MathAlignPoint", []syntax.SyntaxKind{syntax.SyntaxKindMathAlignPoint}, checkCast[*syntax.MathAlignPoint]},
	{"MathDelimited", []syntax.SyntaxKind{syntax.SyntaxKindMathDelimited}, checkCast[*syntax.MathDelimited]},
	{"MathAttach", []syntax.SyntaxKind{syntax.SyntaxKindMathAttach}, checkCast[*syntax.MathAttach]},
	{"MathPrimes", []syntax.SyntaxKind{syntax.SyntaxKindMathPrimes}, checkCast[*syntax.MathPrimes]},
	{"MathFrac", []syntax.SyntaxKind{syntax.SyntaxKindMathFrac}, checkCast[*syntax.MathFrac]},
	{"MathRoot", []syntax.SyntaxKind{syntax.SyntaxKindMathRoot}, checkCast[*syntax.MathRoot]},
	{"Ident", []syntax.SyntaxKind{syntax.SyntaxKindIdent}, checkCast[*syntax.Ident]},
	{"None", []syntax.SyntaxKind{syntax.SyntaxKindNone}, checkCast[*syntax.None]},
	{"Auto", []syntax.SyntaxKind{syntax.SyntaxKindAuto}, checkCast[*syntax.Auto]},
	{"Bool", []syntax.SyntaxKind{syntax.SyntaxKindBool}, checkCast[*syntax.Bool]},
	{"Int", []syntax.SyntaxKind{syntax.SyntaxKindInt}, checkCast[*syntax.Int]},
	{"Float", []syntax.SyntaxKind{syntax.SyntaxKindFloat}, checkCast[*syntax.Float]},
	{"Numeric", []syntax.SyntaxKind{syntax.SyntaxKindNumeric}, checkCast[*syntax.Numeric]},
	{"Str", []syntax.SyntaxKind{syntax.SyntaxKindStr}, checkCast[*syntax.Str]},
	{"CodeBlock", []syntax.SyntaxKind{syntax.SyntaxKindCodeBlock}, checkCast[*syntax.CodeBlock]},
	{"Code", []syntax.SyntaxKind{syntax.SyntaxKindCode}, checkCast[*syntax.Code]},
	{"ContentBlock", []syntax.SyntaxKind{syntax.SyntaxKindContentBlock}, checkCast[*syntax.ContentBlock]},
	{"Parenthesized", []syntax.SyntaxKind{syntax.SyntaxKindParenthesized}, checkCast[*syntax.Parenthesized]},
	{"Array", []syntax.SyntaxKind{syntax.SyntaxKindArray}, checkCast[*syntax.Array]},
	{"Dict", []syntax.SyntaxKind{syntax.SyntaxKindDict}, checkCast[*syntax.Dict]},
	{"Named", []syntax.SyntaxKind{syntax.SyntaxKindNamed}, checkCast[*syntax.Named]},
	{"Keyed", []syntax.SyntaxKind{syntax.SyntaxKindKeyed}, checkCast[*syntax.Keyed]},
	{"Spread", []syntax.SyntaxKind{syntax.SyntaxKindSpread}, checkCast[*syntax.Spread]},
	{"Unary", []syntax.SyntaxKind{syntax.SyntaxKindUnary}, checkCast[*syntax.Unary]},
	{"Binary", []syntax.SyntaxKind{syntax.SyntaxKindBinary}, checkCast[*syntax.Binary]},
	{"FieldAccess", []syntax.SyntaxKind{syntax.SyntaxKindFieldAccess}, checkCast[*syntax.FieldAccess]},
	{"FuncCall", []syntax.SyntaxKind{syntax.SyntaxKindFuncCall}, checkCast[*syntax.FuncCall]},
	{"Args", []syntax.SyntaxKind{syntax.SyntaxKindArgs}, checkCast[*syntax.Args]},
	{"Closure", []syntax.SyntaxKind{syntax.SyntaxKindClosure}, checkCast[*syntax.Closure]},
	{"Params", []syntax.SyntaxKind{syntax.SyntaxKindParams}, checkCast[*syntax.Params]},
	{"Underscore", []syntax.SyntaxKind{syntax.SyntaxKindUnderscore}, checkCast[*syntax.Underscore]},
	{"Destructuring", []syntax.SyntaxKind{syntax.SyntaxKindDestructuring}, checkCast[*syntax.Destructuring]},
	{"LetBinding", []syntax.SyntaxKind{syntax.SyntaxKindLetBinding}, checkCast[*syntax.LetBinding]},
	{"DestructAssignment", []syntax.SyntaxKind{syntax.SyntaxKindDestructAssignment}, checkCast[*syntax.DestructAssignment]},
	{"SetRule", []syntax.SyntaxKind{syntax.SyntaxKindSetRule}, checkCast[*syntax.SetRule]},
	{"ShowRule", []syntax.SyntaxKind{syntax.SyntaxKindShowRule}, checkCast[*syntax.ShowRule]},
	{"Contextual", []syntax.SyntaxKind{syntax.SyntaxKindContextual}, checkCast[*syntax.Contextual]},
	{"Conditional", []syntax.SyntaxKind{syntax.SyntaxKindConditional}, checkCast[*syntax.Conditional]},
	{"WhileLoop", []syntax.SyntaxKind{syntax.SyntaxKindWhileLoop}, checkCast[*syntax.WhileLoop]},
	{"ForLoop", []syntax.SyntaxKind{syntax.SyntaxKindForLoop}, checkCast[*syntax.ForLoop]},
	{"ModuleImport", []syntax.SyntaxKind{syntax.SyntaxKindModuleImport}, checkCast[*syntax.ModuleImport]},
	{"ImportItems", []syntax.SyntaxKind{syntax.SyntaxKindImportItems}, checkCast[*syntax.ImportItems]},
	{"ImportItemPath", []syntax.SyntaxKind{syntax.SyntaxKindImportItemPath}, checkCast[*syntax.ImportItemPath]},
	{"RenamedImportItem", []syntax.SyntaxKind{syntax.SyntaxKindRenamedImportItem}, checkCast[*syntax.RenamedImportItem]},
	{"ModuleInclude", []syntax.SyntaxKind{syntax.SyntaxKindModuleInclude}, checkCast[*syntax.ModuleInclude]},
	{"LoopBreak", []syntax.SyntaxKind{syntax.SyntaxKindLoopBreak}, checkCast[*syntax.LoopBreak]},
	{"LoopContinue", []syntax.SyntaxKind{syntax.SyntaxKindLoopContinue}, checkCast[*syntax.LoopContinue]},
	{"FuncReturn", []syntax.SyntaxKind{syntax.SyntaxKindFuncReturn}, checkCast[*syntax.FuncReturn]},
	{"Expr", exprKinds, checkCast[syntax.Expr]},
	{"ArrayItem", slices.Concat(exprKinds, spreadKinds), checkCast[syntax.ArrayItem]},
	{"DictItem", slices.Concat(namedKinds, spreadKinds, keyedKinds), checkCast[syntax.DictItem]},
	{"Arg", slices.Concat(exprKinds, namedKinds, spreadKinds), checkCast[syntax.Arg]},
	{"Param", slices.Concat(exprKinds, namedKinds, spreadKinds, patternKinds), checkCast[syntax.Param]},
	{"Pattern", slices.Concat(exprKinds, patternKinds), checkCast[syntax.Pattern]},
	{"DestructuringItem", slices.Concat(exprKinds, namedKinds, spreadKinds, patternKinds), checkCast[syntax.DestructuringItem]},
}

var (
	namedKinds   = []syntax.SyntaxKind{syntax.SyntaxKindNamed}
	keyedKinds   = []syntax.SyntaxKind{syntax.SyntaxKindKeyed}
	spreadKinds  = []syntax.SyntaxKind{syntax.SyntaxKindSpread}
	patternKinds = []syntax.SyntaxKind{syntax.SyntaxKindParenthesized, syntax.SyntaxKindDestructuring, syntax.SyntaxKindUnderscore}
	exprKinds    = []syntax.SyntaxKind{
		syntax.SyntaxKindText,
		syntax.SyntaxKindLinebreak,
		syntax.SyntaxKindParbreak,
		syntax.SyntaxKindEscape,
		syntax.SyntaxKindShorthand,
		syntax.SyntaxKindSmartQuote,
		syntax.SyntaxKindStrong,
		syntax.SyntaxKindEmph,
		syntax.SyntaxKindRaw,
		syntax.SyntaxKindLink,
		syntax.SyntaxKindLabel,
		syntax.SyntaxKindRef,
		syntax.SyntaxKindHeading,
		syntax.SyntaxKindListItem,
		syntax.SyntaxKindEnumItem,
		syntax.SyntaxKindTermItem,
		syntax.SyntaxKindEquation,
		syntax.SyntaxKindMath,
		syntax.SyntaxKindMathText,
		syntax.SyntaxKindMathIdent,
		syntax.SyntaxKindMathShorthand,
		syntax.SyntaxKindMathAlignPoint,
		syntax.SyntaxKindMathDelimited,
		syntax.SyntaxKindMathAttach,
		syntax.SyntaxKindMathPrimes,
		syntax.SyntaxKindMathFrac,
		syntax.SyntaxKindMathRoot,
		syntax.SyntaxKindIdent,
		syntax.SyntaxKindNone,
		syntax.SyntaxKindAuto,
		syntax.SyntaxKindBool,
		syntax.SyntaxKindInt,
		syntax.SyntaxKindFloat,
		syntax.SyntaxKindNumeric,
		syntax.SyntaxKindStr,
		syntax.SyntaxKindCodeBlock,
		syntax.SyntaxKindContentBlock,
		syntax.SyntaxKindParenthesized,
		syntax.SyntaxKindArray,
		syntax.SyntaxKindDict,
		syntax.SyntaxKindUnary,
		syntax.SyntaxKindBinary,
		syntax.SyntaxKindFieldAccess,
		syntax.SyntaxKindFuncCall,
		syntax.SyntaxKindClosure,
		syntax.SyntaxKindLetBinding,
		syntax.SyntaxKindDestructAssignment,
		syntax.SyntaxKindSetRule,
		syntax.SyntaxKindShowRule,
		syntax.SyntaxKindContextual,
		syntax.SyntaxKindConditional,
		syntax.SyntaxKindWhileLoop,
		syntax.SyntaxKindForLoop,
		syntax.SyntaxKindModuleImport,
		syntax.SyntaxKindModuleInclude,
		syntax.SyntaxKindLoopBreak,
		syntax.SyntaxKindLoopContinue,
		syntax.SyntaxKindFuncReturn,
	}
)

// checkCast casts a node, and the first and the last of its children that can
// be, to a type.
func checkCast[T syntax.AstNode](n *syntax.SyntaxNode, kinds []syntax.SyntaxKind) error {
	fits := func(n *syntax.SyntaxNode) bool { return slices.Contains(kinds, n.SyntaxKind()) }
	var first, last *syntax.SyntaxNode
	if inner, ok := n.Repr.(*syntax.InnerNode); ok {
		for _, c := range inner.Children {
			if fits(c) {
				if first == nil {
					first = c
				}
				last = c
			}
		}
	}
	self := n
	if !fits(n) {
		self = nil
	}
	if got := syntax.SyntaxNode_is[T](n); got != (self != nil) {
		return fmt.Errorf("%v: %v", n.SyntaxKind(), got)
	}
	got := func(what string, t T, ok bool, want *syntax.SyntaxNode) error {
		if ok != (want != nil) {
			return fmt.Errorf("%v: %s: %v", n.SyntaxKind(), what, ok)
		}
		if ok && syntax.VerifUntyped(t) != want {
			return fmt.Errorf("%v: %s is another node", n.SyntaxKind(), what)
		}
		return nil
	}
	t, ok := syntax.SyntaxNode_cast[T](n).Get()
	if err := got("cast", t, ok, self); err != nil {
		return err
	}
	t, ok = syntax.SyntaxNode_try_cast_first[T](n).Get()
	if err := got("first", t, ok, first); err != nil {
		return err
	}
	t, ok = syntax.SyntaxNode_try_cast_last[T](n).Get()
	if err := got("last", t, ok, last); err != nil {
		return err
	}
	if first != nil {
		if err := got("first", syntax.SyntaxNode_cast_first[T](n), true, first); err != nil {
			return err
		}
		return got("last", syntax.SyntaxNode_cast_last[T](n), true, last)
	}
	return nil
}

// checkCasts casts all nodes of a tree to all types.
func checkCasts(n *syntax.SyntaxNode, info *vh.Info) error {
	info.Label(true, n.SyntaxKind().Name())
	for _, c := range casts {
		if err := c.check(n, c.kinds); err != nil {
			return fmt.Errorf("as %s: %w", c.name, err)
		}
	}
	if inner, ok := n.Repr.(*syntax.InnerNode); ok {
		for _, c := range inner.Children {
			if err := checkCasts(c, info); err != nil {
				return err
			}
		}
	}
	return nil
}

// defaults are the placeholders, each with its kind.
var defaults = []struct {
	kind syntax.SyntaxKind
	node func() syntax.AstNode
}{
	{syntax.SyntaxKindMarkup, func() syntax.AstNode { return syntax.Markup_default() }},
	{syntax.SyntaxKindText, func() syntax.AstNode { return syntax.Text_default() }},
	{syntax.SyntaxKindSpace, func() syntax.AstNode { return syntax.Space_default() }},
	{syntax.SyntaxKindLinebreak, func() syntax.AstNode { return syntax.Linebreak_default() }},
	{syntax.SyntaxKindParbreak, func() syntax.AstNode { return syntax.Parbreak_default() }},
	{syntax.SyntaxKindEscape, func() syntax.AstNode { return syntax.Escape_default() }},
	{syntax.SyntaxKindShorthand, func() syntax.AstNode { return syntax.Shorthand_default() }},
	{syntax.SyntaxKindSmartQuote, func() syntax.AstNode { return syntax.SmartQuote_default() }},
	{syntax.SyntaxKindStrong, func() syntax.AstNode { return syntax.Strong_default() }},
	{syntax.SyntaxKindEmph, func() syntax.AstNode { return syntax.Emph_default() }},
	{syntax.SyntaxKindRaw, func() syntax.AstNode { return syntax.Raw_default() }},
	{syntax.SyntaxKindRawLang, func() syntax.AstNode { return syntax.RawLang_default() }},
	{syntax.SyntaxKindRawDelim, func() syntax.AstNode { return syntax.RawDelim_default() }},
	{syntax.SyntaxKindLink, func() syntax.AstNode { return syntax.Link_default() }},
	{syntax.SyntaxKindLabel, func() syntax.AstNode { return syntax.Label_default() }},
	{syntax.SyntaxKindRef, func() syntax.AstNode { return syntax.Ref_default() }},
	{syntax.SyntaxKindHeading, func() syntax.AstNode { return syntax.Heading_default() }},
	{syntax.SyntaxKindListItem, func() syntax.AstNode { return syntax.ListItem_default() }},
	{syntax.SyntaxKindEnumItem, func() syntax.AstNode { return syntax.EnumItem_default() }},
	{syntax.SyntaxKindTermItem, func() syntax.AstNode { return syntax.TermItem_default() }},
	{syntax.SyntaxKindEquation, func() syntax.AstNode { return syntax.Equation_default() }},
	{syntax.SyntaxKindMath, func() syntax.AstNode { return syntax.Math_default() }},
	{syntax.SyntaxKindMathText, func() syntax.AstNode { return syntax.MathText_default() }},
	{syntax.SyntaxKindMathIdent, func() syntax.AstNode { return syntax.MathIdent_default() }},
	{syntax.SyntaxKindMathShorthand, func() syntax.AstNode { return syntax.MathShorthand_default() }},
	{syntax.SyntaxKindMathAlignPoint, func() syntax.AstNode { return syntax.MathAlignPoint_default() }},
	{syntax.SyntaxKindMathDelimited, func() syntax.AstNode { return syntax.MathDelimited_default() }},
	{syntax.SyntaxKindMathAttach, func() syntax.AstNode { return syntax.MathAttach_default() }},
	{syntax.SyntaxKindMathPrimes, func() syntax.AstNode { return syntax.MathPrimes_default() }},
	{syntax.SyntaxKindMathFrac, func() syntax.AstNode { return syntax.MathFrac_default() }},
	{syntax.SyntaxKindMathRoot, func() syntax.AstNode { return syntax.MathRoot_default() }},
	{syntax.SyntaxKindIdent, func() syntax.AstNode { return syntax.Ident_default() }},
	{syntax.SyntaxKindNone, func() syntax.AstNode { return syntax.None_default() }},
	{syntax.SyntaxKindAuto, func() syntax.AstNode { return syntax.Auto_default() }},
	{syntax.SyntaxKindBool, func() syntax.AstNode { return syntax.Bool_default() }},
	{syntax.SyntaxKindInt, func() syntax.AstNode { return syntax.Int_default() }},
	{syntax.SyntaxKindFloat, func() syntax.AstNode { return syntax.Float_default() }},
	{syntax.SyntaxKindNumeric, func() syntax.AstNode { return syntax.Numeric_default() }},
	{syntax.SyntaxKindStr, func() syntax.AstNode { return syntax.Str_default() }},
	{syntax.SyntaxKindCodeBlock, func() syntax.AstNode { return syntax.CodeBlock_default() }},
	{syntax.SyntaxKindCode, func() syntax.AstNode { return syntax.Code_default() }},
	{syntax.SyntaxKindContentBlock, func() syntax.AstNode { return syntax.ContentBlock_default() }},
	{syntax.SyntaxKindParenthesized, func() syntax.AstNode { return syntax.Parenthesized_default() }},
	{syntax.SyntaxKindArray, func() syntax.AstNode { return syntax.Array_default() }},
	{syntax.SyntaxKindDict, func() syntax.AstNode { return syntax.Dict_default() }},
	{syntax.SyntaxKindNamed, func() syntax.AstNode { return syntax.Named_default() }},
	{syntax.SyntaxKindKeyed, func() syntax.AstNode { return syntax.Keyed_default() }},
	{syntax.SyntaxKindSpread, func() syntax.AstNode { return syntax.Spread_default() }},
	{syntax.SyntaxKindUnary, func() syntax.AstNode { return syntax.Unary_default() }},
	{syntax.SyntaxKindBinary, func() syntax.AstNode { return syntax.Binary_default() }},
	{syntax.SyntaxKindFieldAccess, func() syntax.AstNode { return syntax.FieldAccess_default() }},
	{syntax.SyntaxKindFuncCall, func() syntax.AstNode { return syntax.FuncCall_default() }},
	{syntax.SyntaxKindArgs, func() syntax.AstNode { return syntax.Args_default() }},
	{syntax.SyntaxKindClosure, func() syntax.AstNode { return syntax.Closure_default() }},
	{syntax.SyntaxKindParams, func() syntax.AstNode { return syntax.Params_default() }},
	{syntax.SyntaxKindUnderscore, func() syntax.AstNode { return syntax.Underscore_default() }},
	{syntax.SyntaxKindDestructuring, func() syntax.AstNode { return syntax.Destructuring_default() }},
	{syntax.SyntaxKindLetBinding, func() syntax.AstNode { return syntax.LetBinding_default() }},
	{syntax.SyntaxKindDestructAssignment, func() syntax.AstNode { return syntax.DestructAssignment_default() }},
	{syntax.SyntaxKindSetRule, func() syntax.AstNode { return syntax.SetRule_default() }},
	{syntax.SyntaxKindShowRule, func() syntax.AstNode { return syntax.ShowRule_default() }},
	{syntax.SyntaxKindContextual, func() syntax.AstNode { return syntax.Contextual_default() }},
	{syntax.SyntaxKindConditional, func() syntax.AstNode { return syntax.Conditional_default() }},
	{syntax.SyntaxKindWhileLoop, func() syntax.AstNode { return syntax.WhileLoop_default() }},
	{syntax.SyntaxKindForLoop, func() syntax.AstNode { return syntax.ForLoop_default() }},
	{syntax.SyntaxKindModuleImport, func() syntax.AstNode { return syntax.ModuleImport_default() }},
	{syntax.SyntaxKindImportItems, func() syntax.AstNode { return syntax.ImportItems_default() }},
	{syntax.SyntaxKindImportItemPath, func() syntax.AstNode { return syntax.ImportItemPath_default() }},
	{syntax.SyntaxKindRenamedImportItem, func() syntax.AstNode { return syntax.RenamedImportItem_default() }},
	{syntax.SyntaxKindModuleInclude, func() syntax.AstNode { return syntax.ModuleInclude_default() }},
	{syntax.SyntaxKindLoopBreak, func() syntax.AstNode { return syntax.LoopBreak_default() }},
	{syntax.SyntaxKindLoopContinue, func() syntax.AstNode { return syntax.LoopContinue_default() }},
	{syntax.SyntaxKindFuncReturn, func() syntax.AstNode { return syntax.FuncReturn_default() }},
	{syntax.SyntaxKindNone, func() syntax.AstNode { return syntax.Expr_default() }},
}

// checkDefaults makes the placeholder of each type: it is new, empty, and of
// the kind of the type.
func checkDefaults() error {
	for _, d := range defaults {
		n, m := syntax.VerifUntyped(d.node()), syntax.VerifUntyped(d.node())
		if n == m {
			return fmt.Errorf("the placeholder of %v is shared", d.kind)
		}
		if l, ok := n.Repr.(*syntax.LeafNode); !ok || l.Kind != d.kind || l.Text != "" || !l.Span.IsDetached() {
			return fmt.Errorf("the placeholder of %v is %v", d.kind, n)
		}
	}
	return nil
}

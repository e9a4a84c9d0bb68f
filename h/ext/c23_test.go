package ext

import (
	"fmt"
	"strings"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

// A step of a history over a pool of sets of kinds.
type setOp struct {
	Op    int // 0 new, 1 add, 2 union, 3 clone
	A, B  int // indices of sets, modulo the size of the pool
	Kinds []uint8
}

type namedSet struct {
	name string
	set  *syntax.SyntaxSet
	want map[syntax.SyntaxKind]bool
}

func plus(m map[syntax.SyntaxKind]bool, k ...syntax.SyntaxKind) map[syntax.SyntaxKind]bool {
	n := kinds(k...)
	for k := range m {
		n[k] = true
	}
	return n
}

// namedSets lists the sets which the package exports, with the tokens which the
// grammar allows at the place the set stands for.
func namedSets() []namedSet {
	stmt := kinds(syntax.SyntaxKindLet, syntax.SyntaxKindSet, syntax.SyntaxKindShow, syntax.SyntaxKindImport, syntax.SyntaxKindInclude, syntax.SyntaxKindReturn)
	atomic := plus(stmt, syntax.SyntaxKindIdent, syntax.SyntaxKindLeftBrace, syntax.SyntaxKindLeftBracket, syntax.SyntaxKindLeftParen, syntax.SyntaxKindDollar,
		syntax.SyntaxKindContext, syntax.SyntaxKindIf, syntax.SyntaxKindWhile, syntax.SyntaxKindFor, syntax.SyntaxKindBreak, syntax.SyntaxKindContinue,
		syntax.SyntaxKindNone, syntax.SyntaxKindAuto, syntax.SyntaxKindInt, syntax.SyntaxKindFloat, syntax.SyntaxKindBool, syntax.SyntaxKindNumeric,
		syntax.SyntaxKindStr, syntax.SyntaxKindLabel, syntax.SyntaxKindRaw)
	unary := kinds(syntax.SyntaxKindPlus, syntax.SyntaxKindMinus, syntax.SyntaxKindNot)
	primary := plus(atomic, syntax.SyntaxKindUnderscore)
	expr := plus(primary, syntax.SyntaxKindPlus, syntax.SyntaxKindMinus, syntax.SyntaxKindNot)
	pattern := plus(atomic, syntax.SyntaxKindLeftParen, syntax.SyntaxKindUnderscore)
	dots := syntax.SyntaxKindDots
	return []namedSet{
		{"StmtSet", syntax.StmtSet, stmt},
		{"MathExprSet", syntax.MathExprSet, kinds(syntax.SyntaxKindHash, syntax.SyntaxKindMathIdent, syntax.SyntaxKindFieldAccess, syntax.SyntaxKindDot, syntax.SyntaxKindComma,
			syntax.SyntaxKindSemicolon, syntax.SyntaxKindRightParen, syntax.SyntaxKindText, syntax.SyntaxKindMathText, syntax.SyntaxKindMathShorthand,
			syntax.SyntaxKindLinebreak, syntax.SyntaxKindMathAlignPoint, syntax.SyntaxKindEscape, syntax.SyntaxKindStr, syntax.SyntaxKindRoot, syntax.SyntaxKindPrime)},
		{"CodeExprSet", syntax.CodeExprSet, expr},
		{"AtomicCodeExprSet", syntax.AtomicCodeExprSet, atomic},
		{"CodePrimarySet", syntax.CodePrimarySet, primary},
		{"AtomicCodePrimarySet", syntax.AtomicCodePrimarySet, atomic},
		{"UnaryOpSet", syntax.UnaryOpSet, unary},
		{"BinaryOpSet", syntax.BinaryOpSet, kinds(syntax.SyntaxKindPlus, syntax.SyntaxKindMinus, syntax.SyntaxKindStar, syntax.SyntaxKindSlash, syntax.SyntaxKindAnd, syntax.SyntaxKindOr,
			syntax.SyntaxKindEqEq, syntax.SyntaxKindExclEq, syntax.SyntaxKindLt, syntax.SyntaxKindLtEq, syntax.SyntaxKindGt, syntax.SyntaxKindGtEq, syntax.SyntaxKindEq,
			syntax.SyntaxKindIn, syntax.SyntaxKindPlusEq, syntax.SyntaxKindHyphEq, syntax.SyntaxKindStarEq, syntax.SyntaxKindSlashEq)},
		{"ArrayOrDictItemSet", syntax.ArrayOrDictItemSet, plus(expr, dots)},
		{"ArgSet", syntax.ArgSet, plus(expr, dots)},
		{"ParamSet", syntax.ParamSet, plus(pattern, dots)},
		{"DestructuringItemSet", syntax.DestructuringItemSet, plus(pattern, dots)},
		{"PatternSet", syntax.PatternSet, pattern},
		{"PatternLeafSet", syntax.PatternLeafSet, atomic},
	}
}

func sameSet(name string, set *syntax.SyntaxSet, want map[syntax.SyntaxKind]bool) error {
	for k := syntax.SyntaxKindFirst; k <= syntax.SyntaxKindLast; k++ {
		if set.Contains(k) != want[k] {
			return fmt.Errorf("the set %v contains %v: %v, expected %v", name, kindNames[k], set.Contains(k), want[k])
		}
	}
	return nil
}

var keywordTexts = strings.Fields("not and or none auto let set show context if else for in while break continue return import include as")

func TestV_C23(t *testing.T) {
	vh.Run(t, vh.Prop[[]setOp]{
		Name: "set", Weight: 60,
		Gen: func(rt *rapid.T) []setOp {
			v := vgen.T{R: rt}
			ops := make([]setOp, 1+v.N(12))
			for i := range ops {
				o := setOp{Op: v.N(4), A: v.N(30), B: v.N(30)}
				n := 1
				if o.Op == 0 {
					n = v.N(8)
				}
				for j := 0; j < n; j++ {
					o.Kinds = append(o.Kinds, uint8(int(syntax.SyntaxKindFirst)+v.N(int(syntax.NSyntaxKinds))))
				}
				ops[i] = o
			}
			return ops
		},
		Check: func(ops []setOp, info *vh.Info) error {
			pool := namedSets()
			for i, o := range ops {
				a, b := pool[o.A%len(pool)], pool[o.B%len(pool)]
				n := namedSet{name: fmt.Sprintf("#%v", i)}
				switch o.Op {
				case 0:
					var ks []syntax.SyntaxKind
					for _, k := range o.Kinds {
						ks = append(ks, syntax.SyntaxKind(k))
					}
					n.set, n.want = syntax.NewSyntaxSet(ks...), kinds(ks...)
				case 1:
					k := syntax.SyntaxKind(o.Kinds[0])
					info.Label(!a.want[k], "add grows")
					n.set, n.want = a.set.Add(k), plus(a.want, k)
				case 2:
					info.Label(len(plus(a.want, keys(b.want)...)) > len(a.want), "union grows")
					n.set, n.want = a.set.Union(b.set), plus(a.want, keys(b.want)...)
				case 3:
					n.set, n.want = a.set.Clone(), plus(a.want)
				}
				info.NonTrivial = info.NonTrivial || (o.Op == 1 || o.Op == 2) && len(n.want) > len(a.want)
				pool = append(pool, n)
				for _, p := range pool {
					if err := sameSet(p.name, p.set, p.want); err != nil {
						return fmt.Errorf("after step %v: %v", i, err)
					}
				}
			}
			return nil
		},
	})
	vh.Run(t, vh.Prop[uint8]{
		Name: "kind", Weight: 5,
		Gen: func(rt *rapid.T) uint8 {
			return uint8(int(syntax.SyntaxKindFirst) + vgen.T{R: rt}.N(int(syntax.NSyntaxKinds)))
		},
		Check: func(c uint8, info *vh.Info) error {
			k := syntax.SyntaxKind(c)
			info.NonTrivial = true
			name := kindNames[k]
			if k.Name() != name || k.String() != name {
				return fmt.Errorf("the kind %v (%v) is named %q, %q", name, c, k.Name(), k.String())
			}
			text := strings.Trim(name[strings.Index(name, "`")+1:], "`")
			is := func(what string, got, want bool) error {
				if got != want {
					return fmt.Errorf("%v of %v: %v", what, name, got)
				}
				return nil
			}
			keyword := false
			for _, w := range keywordTexts {
				keyword = keyword || w == text && !strings.Contains(name, "expression")
			}
			paired := strings.HasPrefix(name, "opening ") || strings.HasPrefix(name, "closing ")
			for _, err := range []error{
				is("IsKeyword", k.IsKeyword(), keyword),
				is("IsGrouping", k.IsGrouping(), paired),
				is("IsTerminator", k.IsTerminator(), strings.HasPrefix(name, "closing ") || k == syntax.SyntaxKindEnd || k == syntax.SyntaxKindSemicolon),
				is("IsBlock", k.IsBlock(), k == syntax.SyntaxKindCodeBlock || k == syntax.SyntaxKindContentBlock),
				is("IsError", k.IsError(), k == syntax.SyntaxKindError),
				is("IsTrivia", k.IsTrivia(), kinds(syntax.SyntaxKindShebang, syntax.SyntaxKindLineComment, syntax.SyntaxKindBlockComment, syntax.SyntaxKindSpace, syntax.SyntaxKindParbreak)[k]),
				is("IsStmt", k.IsStmt(), kinds(syntax.SyntaxKindLetBinding, syntax.SyntaxKindSetRule, syntax.SyntaxKindShowRule, syntax.SyntaxKindModuleImport, syntax.SyntaxKindModuleInclude)[k]),
			} {
				if err != nil {
					return err
				}
			}
			return nil
		},
	})
	vh.Run(t, vh.Prop[string]{
		Name: "parsed", Weight: 35,
		Gen: func(rt *rapid.T) string {
			v := vgen.T{R: rt}
			if v.Chance(1, 4) {
				return v.Equation(1 + v.N(3)).Text()
			}
			return "#" + v.CodeBlock(3).Text()
		},
		Check: func(text string, info *vh.Info) error {
			info.NonTrivial = len(text) > 12
			return consistent(syntax.Parse(text), info)
		},
	})
}

func keys(m map[syntax.SyntaxKind]bool) []syntax.SyntaxKind {
	var ks []syntax.SyntaxKind
	for k := range m {
		ks = append(ks, k)
	}
	return ks
}

// firstLeaf is the kind of the first token of the node.
func firstLeaf(n *syntax.SyntaxNode) syntax.SyntaxKind {
	for {
		in, ok := n.Repr.(*syntax.InnerNode)
		if !ok || len(in.Children) == 0 || in.Kind == syntax.SyntaxKindRaw { // the parser takes raw text as one token
			return n.SyntaxKind()
		}
		n = in.Children[0]
	}
}

// consistent checks that the nodes of a well-formed program are where the sets
// and the predicates over kinds say they can be.
func consistent(n *syntax.SyntaxNode, info *vh.Info) error { return within(n, false, info) }

// within is consistent for a node in math, or not.
func within(n *syntax.SyntaxNode, math bool, info *vh.Info) error {
	if leaf, ok := n.Repr.(*syntax.LeafNode); ok {
		word := leaf.Kind != syntax.SyntaxKindBool
		word = word && strings.Contains(" "+strings.Join(keywordTexts, " ")+" ", " "+leaf.Text+" ")
		switch {
		case leaf.Kind == syntax.SyntaxKindText || leaf.Kind == syntax.SyntaxKindRawLang || leaf.Kind == syntax.SyntaxKindIdent || leaf.Kind == syntax.SyntaxKindMathIdent:
			word = false
		}
		if leaf.Kind.IsKeyword() != word {
			return fmt.Errorf("%q is of kind %v, keyword: %v", leaf.Text, leaf.Kind, leaf.Kind.IsKeyword())
		}
		blank := strings.TrimSpace(leaf.Text) == "" || strings.HasPrefix(leaf.Text, "//") || strings.HasPrefix(leaf.Text, "/*")
		switch leaf.Kind {
		case syntax.SyntaxKindText, syntax.SyntaxKindRawTrimmed:
			blank = false
		}
		if leaf.Kind.IsTrivia() != blank {
			return fmt.Errorf("%q is of kind %v, trivia: %v", leaf.Text, leaf.Kind, leaf.Kind.IsTrivia())
		}
		return nil
	}
	in, ok := n.Repr.(*syntax.InnerNode)
	if !ok {
		return fmt.Errorf("unexpected %T", n.Repr)
	}
	member := func(where string, set *syntax.SyntaxSet, c *syntax.SyntaxNode) error {
		info.Label(true, where)
		if !set.Contains(firstLeaf(c)) {
			return fmt.Errorf("%v starts with %v, which its set lacks", where, firstLeaf(c))
		}
		return nil
	}
	hash := false
	for i, c := range in.Children {
		k := c.SyntaxKind()
		here := math
		switch {
		case k == syntax.SyntaxKindEquation || k == syntax.SyntaxKindMath || k == syntax.SyntaxKindMathDelimited:
			here = true
		case hash || k == syntax.SyntaxKindMarkup || k == syntax.SyntaxKindCode:
			here = false
		}
		hash = k == syntax.SyntaxKindHash
		if k.IsTrivia() || k.IsTerminator() || k.IsGrouping() || k == syntax.SyntaxKindComma {
			continue
		}
		var err error
		if math {
			// In math, the tokens are others.
			switch n.SyntaxKind() {
			case syntax.SyntaxKindMath, syntax.SyntaxKindMathFrac, syntax.SyntaxKindMathAttach, syntax.SyntaxKindMathRoot:
				after := i > 0 && in.Children[i-1].SyntaxKind() == syntax.SyntaxKindHash
				if f := firstLeaf(c); !after && f != syntax.SyntaxKindLeftParen && in.Children[0].SyntaxKind() != syntax.SyntaxKindLeftParen {
					switch k {
					case syntax.SyntaxKindUnderscore, syntax.SyntaxKindHat, syntax.SyntaxKindSlash, syntax.SyntaxKindMath, syntax.SyntaxKindMathPrimes:
					default:
						err = member("math expression", syntax.MathExprSet, c)
					}
				}
			}
			if err == nil {
				err = within(c, here, info)
			}
			if err != nil {
				return err
			}
			continue
		}
		switch n.SyntaxKind() {
		case syntax.SyntaxKindCode:
			err = member("expression", syntax.CodeExprSet, c)
			if err == nil && syntax.StmtSet.Contains(firstLeaf(c)) != (k.IsStmt() || k == syntax.SyntaxKindFuncReturn) {
				err = fmt.Errorf("%v starts with %v: statement %v", k, firstLeaf(c), k.IsStmt())
			}
		case syntax.SyntaxKindArgs:
			if !k.IsBlock() {
				err = member("argument", syntax.ArgSet, c)
			}
		case syntax.SyntaxKindArray, syntax.SyntaxKindDict:
			if k != syntax.SyntaxKindColon {
				err = member("item", syntax.ArrayOrDictItemSet, c)
			}
		case syntax.SyntaxKindParams:
			err = member("parameter", syntax.ParamSet, c)
		case syntax.SyntaxKindDestructuring:
			err = member("destructuring item", syntax.DestructuringItemSet, c)
		case syntax.SyntaxKindSpread, syntax.SyntaxKindParenthesized:
			if k != syntax.SyntaxKindDots {
				err = member("operand", syntax.CodeExprSet, c)
			}
		case syntax.SyntaxKindUnary:
			if c == in.Children[0] {
				err = member("unary operator", syntax.UnaryOpSet, c)
			}
		case syntax.SyntaxKindBinary:
			if _, leaf := c.Repr.(*syntax.LeafNode); leaf && c != in.Children[0] && c != in.Children[len(in.Children)-1] && k != syntax.SyntaxKindNot {
				err = member("binary operator", syntax.BinaryOpSet, c)
			}
		}
		if err == nil {
			err = within(c, here, info)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

package vgen

import (
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/mewmew/typast/typst/syntax"
)

// Newlines says where line ends may be between the tokens of an expression.
type Newlines int

// Modes of newlines.
const (
	NLFree  Newlines = iota // within parentheses: anywhere.
	NLBlock                 // a statement of a code block: before a dot or else.
	NLNone                  // embedded in markup: nowhere.
)

// E is an expression with what matters for operator precedence.
type E struct {
	N *N
	// Precedence of a binary expression, or 9.
	Prec int
	// Least precedence of an operator which a parser would still take into the
	// right end of the expression, or 9.
	Right int
	// An atom may be followed by a field access or call.
	Atom bool
}

func atom(n *N) E { return E{N: n, Prec: 9, Right: 9, Atom: true} }
func lit(n *N) E  { return E{N: n, Prec: 9, Right: 9} }
func open(n *N) E { return E{N: n, Prec: 9, Right: 0} }

func wordy(r rune) bool {
	return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' || r == '-' || r == '%' || unicode.IsMark(r)
}

// glue reports whether two tokens would lex differently without a space.
func glue(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	last, _ := utf8.DecodeLastRuneInString(a)
	first, _ := utf8.DecodeRuneInString(b)
	if first == '-' && strings.Trim(a, "0123456789") == "" {
		return false
	}
	switch {
	case wordy(last) && wordy(first):
		// Also keeps a minus sign off the end of an identifier.
		return last != '-' || len(a) > 1
	case last == '<' && (wordy(first) || first == '='):
		return true
	case strings.ContainsRune("=!<>+-*/\u2212", last) && first == '=':
		return true
	case last == '=' && first == '>':
		return true
	case last == '/' && (first == '/' || first == '*'), last == '*' && first == '/':
		return true
	case last == '`' && first == '`':
		return true
	case last == '.' && first == '.', wordy(last) && first == '.' && strings.HasPrefix(b, ".."):
		return true
	case unicode.IsDigit(last) && first == '.', last == '.' && unicode.IsDigit(first):
		return true
	}
	return false
}

// Sp draws optional trivia in code.
func (t T) Sp(nl Newlines, need bool) []*N {
	var c int
	if need {
		c = 1 + t.W(14, 2, 2, 2, 1)
	} else {
		c = t.W(14, 14, 2, 2, 2, 1)
	}
	sp := func(s string) *N { return L(syntax.SyntaxKindSpace, s) }
	switch c {
	case 0:
		return nil
	case 1:
		return []*N{sp(" ")}
	case 2:
		return []*N{sp(t.Pick("  ", "\t", " \t ", "\u00a0"))}
	case 3:
		ns := []*N{sp(" "), L(syntax.SyntaxKindBlockComment, t.BlockComment())}
		if t.Chance(1, 2) {
			ns = append(ns, sp(" "))
		}
		return ns
	case 4:
		if nl == NLFree {
			return []*N{sp(t.Pick("\n", "\n  ", " \n\n ", "\r\n", "\u2028"))}
		}
	case 5:
		if nl == NLFree {
			return []*N{sp(" "), L(syntax.SyntaxKindLineComment, t.LineComment()), sp("\n")}
		}
	}
	return []*N{sp(" ")}
}

// Glue returns whether two texts may not touch because they would be read as
// one token.
func Glue(a, b string) bool { return glue(a, b) }

// seq puts trivia between the parts where it is needed or drawn.
func (t T) seq(nl Newlines, parts ...*N) []*N {
	var out []*N
	prev := ""
	for _, p := range parts {
		if p == nil {
			continue
		}
		text := p.Text()
		if prev != "" {
			out = append(out, t.Sp(nl, glue(prev, text))...)
		}
		out = append(out, p)
		if text != "" {
			prev = text
		}
	}
	return out
}

func tok(k Kind, s string) *N { return L(k, s) }

// Names.
var idents = []string{"a", "b", "x", "foo", "bar_1", "c-d", "_u", "été", "iff", "nota", "in2", "漢", "h"}

// Ident draws an identifier.
func (t T) Ident() *N { return L(syntax.SyntaxKindIdent, idents[t.N(len(idents))]) }

// fresh draws an identifier which is not in the set, and adds it.
func (t T) fresh(seen map[string]bool) *N {
	s := idents[t.N(len(idents))]
	for i := 0; seen[s]; i++ {
		s = "v" + strconv.Itoa(len(seen)+i)
	}
	seen[s] = true
	return L(syntax.SyntaxKindIdent, s)
}

// Str draws a string literal.
func (t T) Str() *N {
	return L(syntax.SyntaxKindStr, t.Pick(`"s"`, `""`, `"a b"`, `"\""`, `"\\"`, `"\n\t\u{41}"`, `"é]})"`, "\"// /* x\"", `"x.typ"`))
}

// Literal draws a literal token.
func (t T) Literal() *N {
	switch t.N(8) {
	case 0:
		return L(syntax.SyntaxKindInt, t.Pick("1", "0", "42", "0x1F", "0b101", "0o17", "007"))
	case 1:
		return L(syntax.SyntaxKindFloat, t.Pick("1.5", "0.25", "1e5", "2.5e-3", "1E+2"))
	case 2:
		return L(syntax.SyntaxKindNumeric, t.Pick("12pt", "1.5em", "50%", "90deg", "2fr", "3cm", "1in", "1.2rad", "10mm"))
	case 3:
		return t.Str()
	case 4:
		return L(syntax.SyntaxKindBool, t.Pick("true", "false"))
	case 5:
		return L(syntax.SyntaxKindNone, "none")
	case 6:
		return L(syntax.SyntaxKindAuto, "auto")
	default:
		return L(syntax.SyntaxKindLabel, t.Pick("<lbl>", "<a-b>", "<sec:x.y>"))
	}
}

// Atom draws an expression which postfix operators apply to, or a literal.
// Within an atomic expression there is no trivia around dots.
func (t T) Atom(nl Newlines, d int, atomic bool) E {
	var e E
	if d <= 0 {
		if t.Chance(1, 3) {
			return lit(t.Literal())
		}
		return atom(t.Ident())
	}
	switch t.W(10, 4, 4, 4, 2, 2, 4, 2, 1) {
	case 8:
		if t.NoMath {
			return lit(t.Literal())
		}
		e = atom(t.Equation(d - 1))
	case 0:
		e = atom(t.Ident())
	case 1:
		return lit(t.Literal())
	case 2:
		e = atom(t.Paren(t.Expr(NLFree, d-1)))
	case 3:
		e = atom(t.ArrayOrDict(d - 1))
	case 4:
		e = atom(t.CodeBlock(d - 1))
	case 5:
		e = atom(t.ContentBlock(d - 1))
	case 6:
		e = atom(t.Str())
	default:
		return lit(t.Raw(true))
	}
	for t.Chance(2, 5) {
		if t.Chance(1, 2) {
			e = atom(I(syntax.SyntaxKindFuncCall, e.N, t.args(d-1, e.N.K == syntax.SyntaxKindFuncCall)))
		} else {
			dot := tok(syntax.SyntaxKindDot, ".")
			field := t.Ident()
			if t.Chance(1, 8) {
				field = L(syntax.SyntaxKindIdent, t.Pick("if", "let", "not", "in", "none"))
			}
			c := []*N{e.N}
			if !atomic && t.Chance(1, 8) {
				before := t.Sp(nl, false)
				if nl == NLBlock && t.Chance(1, 2) {
					before = []*N{L(syntax.SyntaxKindSpace, "\n  ")}
				}
				c = append(c, before...)
			}
			c = append(c, dot)
			e = atom(I(syntax.SyntaxKindFieldAccess, append(c, field)...))
		}
	}
	return e
}

// Paren puts an expression into parentheses.
func (t T) Paren(e E) *N {
	return I(syntax.SyntaxKindParenthesized, t.seq(NLFree, tok(syntax.SyntaxKindLeftParen, "("), e.N, tok(syntax.SyntaxKindRightParen, ")"))...)
}

// list separates items by commas.
func (t T) list(items []*N, needComma bool) []*N {
	var parts []*N
	for i, it := range items {
		parts = append(parts, it)
		if i+1 < len(items) || needComma || t.Chance(1, 5) {
			parts = append(parts, tok(syntax.SyntaxKindComma, ","))
		}
	}
	return parts
}

func (t T) group(open, close_ *N, parts []*N) []*N {
	all := append([]*N{open}, parts...)
	return t.seq(NLFree, append(all, close_)...)
}

// ArrayOrDict draws an array or dictionary.
func (t T) ArrayOrDict(d int) *N {
	lp, rp := tok(syntax.SyntaxKindLeftParen, "("), tok(syntax.SyntaxKindRightParen, ")")
	spread := func() *N {
		return I(syntax.SyntaxKindSpread, t.seq(NLFree, tok(syntax.SyntaxKindDots, ".."), t.Expr(NLFree, d).N)...)
	}
	if t.Chance(1, 2) {
		var items []*N
		n := t.N(4)
		spreads := 0
		for i := 0; i < n; i++ {
			if t.Chance(1, 6) {
				items = append(items, spread())
				spreads++
			} else {
				items = append(items, t.Expr(NLFree, d).N)
			}
		}
		need := len(items) == 1 && spreads == 0
		return I(syntax.SyntaxKindArray, t.group(lp, rp, t.list(items, need))...)
	}
	seen := map[string]bool{}
	var parts []*N
	n := t.N(4)
	colon := n == 0 || t.Chance(1, 6)
	var items []*N
	pairs := 0
	for i := 0; i < n; i++ {
		switch t.W(4, 2, 1, 1) {
		case 0:
			items = append(items, I(syntax.SyntaxKindNamed, t.seq(NLFree, t.fresh(seen), tok(syntax.SyntaxKindColon, ":"), t.Expr(NLFree, d).N)...))
			pairs++
		case 1:
			key := "k" + strconv.Itoa(i)
			items = append(items, I(syntax.SyntaxKindKeyed, t.seq(NLFree, L(syntax.SyntaxKindStr, `"`+key+`"`), tok(syntax.SyntaxKindColon, ":"), t.Expr(NLFree, d).N)...))
			pairs++
		case 2:
			items = append(items, I(syntax.SyntaxKindKeyed, t.seq(NLFree, t.Paren(t.Expr(NLFree, d-1)), tok(syntax.SyntaxKindColon, ":"), t.Expr(NLFree, d).N)...))
			pairs++
		case 3:
			items = append(items, spread())
		}
	}
	if pairs == 0 {
		colon = true
	}
	if colon {
		parts = append(parts, tok(syntax.SyntaxKindColon, ":"))
	}
	parts = append(parts, t.list(items, false)...)
	return I(syntax.SyntaxKindDict, t.group(lp, rp, parts)...)
}

// Args draws an argument list.
func (t T) Args(d int) *N { return t.args(d, false) }

func (t T) args(d int, paren bool) *N {
	args := I(syntax.SyntaxKindArgs)
	blocks := 0
	if t.Chance(1, 4) {
		blocks = 1 + t.N(2)
	}
	if paren || blocks == 0 || t.Chance(1, 2) {
		seen := map[string]bool{}
		var items []*N
		n := t.N(4)
		for i := 0; i < n; i++ {
			switch t.W(5, 3, 1) {
			case 0:
				items = append(items, t.Expr(NLFree, d).N)
			case 1:
				items = append(items, I(syntax.SyntaxKindNamed, t.seq(NLFree, t.fresh(seen), tok(syntax.SyntaxKindColon, ":"), t.Expr(NLFree, d).N)...))
			case 2:
				items = append(items, I(syntax.SyntaxKindSpread, t.seq(NLFree, tok(syntax.SyntaxKindDots, ".."), t.Expr(NLFree, d).N)...))
			}
		}
		args.C = t.group(tok(syntax.SyntaxKindLeftParen, "("), tok(syntax.SyntaxKindRightParen, ")"), t.list(items, false))
	}
	for i := 0; i < blocks; i++ {
		args.C = append(args.C, t.ContentBlock(d-1))
	}
	return args
}

// Pattern draws a binding pattern.
func (t T) Pattern(nl Newlines, d int, seen map[string]bool) *N {
	if d <= 0 || t.Chance(2, 3) {
		if t.Chance(1, 6) {
			return tok(syntax.SyntaxKindUnderscore, "_")
		}
		return t.fresh(seen)
	}
	return t.Destructuring(d-1, seen, false)
}

// Destructuring draws a destructuring pattern.
func (t T) Destructuring(d int, seen map[string]bool, reassign bool) *N {
	leaf := func() *N {
		if reassign {
			if t.Chance(1, 4) {
				return I(syntax.SyntaxKindFieldAccess, t.Ident(), tok(syntax.SyntaxKindDot, "."), t.Ident())
			}
			return t.Ident()
		}
		return t.fresh(seen)
	}
	var items []*N
	n := t.N(4)
	if reassign && n == 0 {
		n = 1
	}
	sink, named := false, false
	for i := 0; i < n; i++ {
		switch t.W(5, 1, 1, 1, 1) {
		case 0:
			items = append(items, leaf())
		case 1:
			items = append(items, tok(syntax.SyntaxKindUnderscore, "_"))
		case 2:
			if sink {
				items = append(items, leaf())
				continue
			}
			sink = true
			sp := []*N{tok(syntax.SyntaxKindDots, "..")}
			if t.Chance(2, 3) {
				sp = t.seq(NLFree, sp[0], leaf())
			}
			items = append(items, I(syntax.SyntaxKindSpread, sp...))
		case 3:
			named = true
			items = append(items, I(syntax.SyntaxKindNamed, t.seq(NLFree, t.Ident(), tok(syntax.SyntaxKindColon, ":"), leaf())...))
		case 4:
			if d > 0 {
				items = append(items, t.Destructuring(d-1, seen, reassign))
			} else {
				items = append(items, leaf())
			}
		}
	}
	need := len(items) == 1 && !sink && !named
	return I(syntax.SyntaxKindDestructuring, t.group(tok(syntax.SyntaxKindLeftParen, "("), tok(syntax.SyntaxKindRightParen, ")"), t.list(items, need))...)
}

// Params draws a parenthesized parameter list.
func (t T) Params(d int) *N {
	seen := map[string]bool{}
	var items []*N
	sink := false
	n := t.N(4)
	for i := 0; i < n; i++ {
		switch t.W(5, 3, 1, 1, 1) {
		case 0:
			items = append(items, t.fresh(seen))
		case 1:
			items = append(items, I(syntax.SyntaxKindNamed, t.seq(NLFree, t.fresh(seen), tok(syntax.SyntaxKindColon, ":"), t.Expr(NLFree, d-1).N)...))
		case 2:
			if sink {
				items = append(items, t.fresh(seen))
				continue
			}
			sink = true
			sp := []*N{tok(syntax.SyntaxKindDots, "..")}
			if t.Chance(2, 3) {
				sp = t.seq(NLFree, sp[0], t.fresh(seen))
			}
			items = append(items, I(syntax.SyntaxKindSpread, sp...))
		case 3:
			items = append(items, tok(syntax.SyntaxKindUnderscore, "_"))
		case 4:
			items = append(items, t.Destructuring(0, seen, false))
		}
	}
	return I(syntax.SyntaxKindParams, t.group(tok(syntax.SyntaxKindLeftParen, "("), tok(syntax.SyntaxKindRightParen, ")"), t.list(items, false))...)
}

// BinOp is a binary operator of the language.
type BinOp struct {
	Toks  []*N
	Prec  int
	Right bool // right associative
}

// BinOps are the binary operators, with the precedence which the language
// documents: multiplication, addition, comparison, and, or, assignment.
var BinOps = []BinOp{
	{[]*N{tok(syntax.SyntaxKindPlus, "+")}, 5, false},
	{[]*N{tok(syntax.SyntaxKindMinus, "-")}, 5, false},
	{[]*N{tok(syntax.SyntaxKindMinus, "\u2212")}, 5, false},
	{[]*N{tok(syntax.SyntaxKindStar, "*")}, 6, false},
	{[]*N{tok(syntax.SyntaxKindSlash, "/")}, 6, false},
	{[]*N{tok(syntax.SyntaxKindEqEq, "==")}, 4, false},
	{[]*N{tok(syntax.SyntaxKindExclEq, "!=")}, 4, false},
	{[]*N{tok(syntax.SyntaxKindLt, "<")}, 4, false},
	{[]*N{tok(syntax.SyntaxKindLtEq, "<=")}, 4, false},
	{[]*N{tok(syntax.SyntaxKindGt, ">")}, 4, false},
	{[]*N{tok(syntax.SyntaxKindGtEq, ">=")}, 4, false},
	{[]*N{tok(syntax.SyntaxKindIn, "in")}, 4, false},
	{[]*N{tok(syntax.SyntaxKindNot, "not"), tok(syntax.SyntaxKindIn, "in")}, 4, false},
	{[]*N{tok(syntax.SyntaxKindAnd, "and")}, 3, false},
	{[]*N{tok(syntax.SyntaxKindOr, "or")}, 2, false},
	{[]*N{tok(syntax.SyntaxKindEq, "=")}, 1, true},
	{[]*N{tok(syntax.SyntaxKindPlusEq, "+=")}, 1, true},
	{[]*N{tok(syntax.SyntaxKindHyphEq, "-=")}, 1, true},
	{[]*N{tok(syntax.SyntaxKindStarEq, "*=")}, 1, true},
	{[]*N{tok(syntax.SyntaxKindSlashEq, "/=")}, 1, true},
}

// Binary combines two operands, and puts those into parentheses which would
// otherwise not stay operands.
func (t T) Binary(nl Newlines, op BinOp, lhs, rhs E) E {
	if lhs.Prec < op.Prec || lhs.Prec == op.Prec && op.Right || op.Prec >= lhs.Right {
		lhs = atom(t.Paren(lhs))
	} else if op.Toks[0].K == syntax.SyntaxKindEq && lastParen(lhs.N) {
		// An array or dictionary before an equals sign is a pattern.
		lhs = atom(t.Paren(lhs))
	}
	min := op.Prec + 1
	if op.Right {
		min = op.Prec
	}
	if rhs.Prec < min {
		rhs = atom(t.Paren(rhs))
	}
	parts := append([]*N{lhs.N}, op.Toks...)
	parts = append(parts, rhs.N)
	right := min
	if rhs.Right < right {
		right = rhs.Right
	}
	return E{N: I(syntax.SyntaxKindBinary, t.seq(nl, parts...)...), Prec: op.Prec, Right: right}
}

func lastParen(n *N) bool {
	for !n.Leaf {
		if n.K == syntax.SyntaxKindArray || n.K == syntax.SyntaxKindDict {
			return true
		}
		if len(n.C) == 0 {
			return false
		}
		n = n.C[len(n.C)-1]
	}
	return false
}

// Unary applies a prefix operator.
func (t T) Unary(nl Newlines, op *N, prec int, e E) E {
	if e.Prec < prec {
		e = atom(t.Paren(e))
	}
	right := prec
	if e.Right < right {
		right = e.Right
	}
	return E{N: I(syntax.SyntaxKindUnary, t.seq(nl, op, e.N)...), Prec: 9, Right: right}
}

// Expr draws a code expression.
func (t T) Expr(nl Newlines, d int) E {
	if d <= 0 {
		return t.Atom(nl, d, false)
	}
	switch t.W(8, 7, 3, 2, 1, 1, 1) {
	case 0:
		return t.Atom(nl, d, false)
	case 1:
		op := BinOps[t.N(len(BinOps))]
		return t.Binary(nl, op, t.Expr(nl, d-1), t.Expr(nl, d-1))
	case 2:
		switch t.N(4) {
		case 0:
			return t.Unary(nl, tok(syntax.SyntaxKindMinus, "-"), 7, t.Expr(nl, d-1))
		case 1:
			return t.Unary(nl, tok(syntax.SyntaxKindPlus, "+"), 7, t.Expr(nl, d-1))
		case 2:
			return t.Unary(nl, tok(syntax.SyntaxKindMinus, "\u2212"), 7, t.Expr(nl, d-1))
		default:
			return t.Unary(nl, tok(syntax.SyntaxKindNot, "not"), 4, t.Expr(nl, d-1))
		}
	case 3:
		return t.Closure(nl, d-1)
	case 4:
		return open(I(syntax.SyntaxKindContextual, t.seq(nl, tok(syntax.SyntaxKindContext, "context"), t.Expr(nl, d-1).N)...))
	case 5:
		if t.Chance(1, 3) {
			return open(I(syntax.SyntaxKindDestructAssignment, t.seq(nl, tok(syntax.SyntaxKindUnderscore, "_"), tok(syntax.SyntaxKindEq, "="), t.Expr(nl, d-1).N)...))
		}
		return open(I(syntax.SyntaxKindDestructAssignment, t.seq(nl, t.Destructuring(1, nil, true), tok(syntax.SyntaxKindEq, "="), t.Expr(nl, d-1).N)...))
	default:
		switch t.N(3) {
		case 0:
			return open(t.Conditional(nl, d-1))
		case 1:
			return open(t.For(nl, d-1))
		default:
			return open(t.While(nl, d-1))
		}
	}
}

// Closure draws an unnamed function.
func (t T) Closure(nl Newlines, d int) E {
	var params *N
	switch t.N(3) {
	case 0:
		params = I(syntax.SyntaxKindParams, t.Ident())
	case 1:
		params = I(syntax.SyntaxKindParams, tok(syntax.SyntaxKindUnderscore, "_"))
	default:
		params = t.Params(d)
	}
	return open(I(syntax.SyntaxKindClosure, t.seq(nl, params, tok(syntax.SyntaxKindArrow, "=>"), t.Expr(nl, d).N)...))
}

// Block draws a code or content block.
func (t T) Block(d int) *N {
	if t.Chance(1, 2) {
		return t.ContentBlock(d)
	}
	return t.CodeBlock(d)
}

// beforeBlock joins an expression and the block after it. There must be trivia
// before a content block, which otherwise is an argument.
func (t T) beforeBlock(nl Newlines, head []*N, block *N) []*N {
	head = append(head, t.Sp(nl, block.K == syntax.SyntaxKindContentBlock)...)
	return append(head, block)
}

// Conditional draws an if expression.
func (t T) Conditional(nl Newlines, d int) *N {
	c := t.beforeBlock(nl, t.seq(nl, tok(syntax.SyntaxKindIf, "if"), t.Expr(nl, d).N), t.Block(d-1))
	if t.Chance(1, 2) {
		if nl == NLBlock && t.Chance(1, 3) {
			c = append(c, L(syntax.SyntaxKindSpace, "\n "))
		} else {
			c = append(c, t.Sp(nl, false)...)
		}
		c = append(c, tok(syntax.SyntaxKindElse, "else"))
		if d > 0 && t.Chance(1, 3) {
			c = append(c, t.Sp(nl, true)...)
			c = append(c, t.Conditional(nl, d-1))
		} else {
			c = append(c, t.Sp(nl, false)...)
			c = append(c, t.Block(d-1))
		}
	}
	return I(syntax.SyntaxKindConditional, c...)
}

// While draws a while loop.
func (t T) While(nl Newlines, d int) *N {
	return I(syntax.SyntaxKindWhileLoop, t.beforeBlock(nl, t.seq(nl, tok(syntax.SyntaxKindWhile, "while"), t.Expr(nl, d).N), t.Block(d-1))...)
}

// For draws a for loop.
func (t T) For(nl Newlines, d int) *N {
	return I(syntax.SyntaxKindForLoop, t.beforeBlock(nl, t.seq(nl, tok(syntax.SyntaxKindFor, "for"),
		t.Pattern(nl, d, map[string]bool{}), tok(syntax.SyntaxKindIn, "in"), t.Expr(nl, d).N), t.Block(d-1))...)
}

// Let draws a let binding.
func (t T) Let(nl Newlines, d int) *N {
	let := tok(syntax.SyntaxKindLet, "let")
	eq := tok(syntax.SyntaxKindEq, "=")
	switch t.W(4, 1, 2, 2) {
	case 0:
		return I(syntax.SyntaxKindLetBinding, t.seq(nl, let, t.Ident(), eq, t.Expr(nl, d).N)...)
	case 1:
		return I(syntax.SyntaxKindLetBinding, t.seq(nl, let, t.Ident())...)
	case 2:
		name := t.Ident()
		rest := t.seq(nl, t.Params(d), eq, t.Expr(nl, d).N)
		closure := I(syntax.SyntaxKindClosure, append([]*N{name}, rest...)...)
		return I(syntax.SyntaxKindLetBinding, t.seq(nl, let, closure)...)
	default:
		seen := map[string]bool{}
		pat := t.Destructuring(d, seen, false)
		if t.Chance(1, 5) {
			pat = tok(syntax.SyntaxKindUnderscore, "_")
		} else if t.Chance(1, 5) {
			pat = I(syntax.SyntaxKindParenthesized, t.seq(NLFree, tok(syntax.SyntaxKindLeftParen, "("), t.Ident(), tok(syntax.SyntaxKindRightParen, ")"))...)
		}
		return I(syntax.SyntaxKindLetBinding, t.seq(nl, let, pat, eq, t.Expr(nl, d).N)...)
	}
}

// SetRule draws a set rule.
func (t T) SetRule(nl Newlines, d int) *N {
	target := t.Ident()
	for t.Chance(1, 4) {
		target = I(syntax.SyntaxKindFieldAccess, target, tok(syntax.SyntaxKindDot, "."), t.Ident())
	}
	c := append([]*N{tok(syntax.SyntaxKindSet, "set")}, t.Sp(nl, true)...)
	c = append(c, target, t.Args(d))
	if t.Chance(1, 4) {
		c = append(c, t.Sp(nl, false)...)
		c = append(c, t.seq(nl, tok(syntax.SyntaxKindIf, "if"), t.Expr(nl, d).N)...)
	}
	return I(syntax.SyntaxKindSetRule, c...)
}

// ShowRule draws a show rule.
func (t T) ShowRule(nl Newlines, d int) *N {
	show, colon := tok(syntax.SyntaxKindShow, "show"), tok(syntax.SyntaxKindColon, ":")
	body := t.Expr(nl, d).N
	if t.Chance(1, 4) {
		body = t.SetRule(nl, d-1)
	}
	if t.Chance(1, 3) {
		return I(syntax.SyntaxKindShowRule, t.seq(nl, show, colon, body)...)
	}
	return I(syntax.SyntaxKindShowRule, t.seq(nl, show, t.Expr(nl, d-1).N, colon, body)...)
}

// Import draws a module import.
func (t T) Import(nl Newlines, d int) *N {
	var src *N
	switch t.W(4, 1, 1) {
	case 0:
		src = L(syntax.SyntaxKindStr, t.Pick(`"a.typ"`, `"@preview/x:1.2.3"`, `"/lib/b.typ"`, `"_x-1.typ"`, `"../é.typ"`, `"a.b/c"`, `"a b/漢字.typ"`, `"\u{61}.typ"`, `"if.typ"`, `"@local/x-y:0.0.1"`, `"@a-b/if:10.20.30"`,
			`"@preview/x:1.2"`, `"@preview/x"`, `"@x:1.2.3"`, `"@preview/x:1.2.3.4"`, `"@preview/a b:1.2.3"`, `"a.b.typ"`, `"1a.typ"`, `"a b.typ"`, `".typ"`, `"a/-b.typ"`, `"a$.typ"`))
	case 1:
		src = t.Ident()
	default:
		src = t.Atom(nl, d, false).N
	}
	parts := []*N{tok(syntax.SyntaxKindImport, "import"), src}
	if t.Chance(1, 3) {
		parts = append(parts, tok(syntax.SyntaxKindAs, "as"), t.Ident())
	}
	if t.Chance(1, 3) {
		return I(syntax.SyntaxKindModuleImport, t.seq(nl, parts...)...)
	}
	parts = append(parts, tok(syntax.SyntaxKindColon, ":"))
	if t.Chance(1, 4) {
		return I(syntax.SyntaxKindModuleImport, t.seq(nl, append(parts, tok(syntax.SyntaxKindStar, "*"))...)...)
	}
	paren := t.Chance(1, 2)
	in := nl
	n := 1 + t.N(3)
	if paren {
		in = NLFree
		n = t.N(4)
	}
	var items []*N
	for i := 0; i < n; i++ {
		path := []*N{t.Ident()}
		for t.Chance(1, 4) {
			path = append(path, tok(syntax.SyntaxKindDot, "."), t.Ident())
		}
		item := I(syntax.SyntaxKindImportItemPath, path...)
		if t.Chance(1, 3) {
			item = I(syntax.SyntaxKindRenamedImportItem, t.seq(in, item, tok(syntax.SyntaxKindAs, "as"), t.Ident())...)
		}
		items = append(items, item)
	}
	list := I(syntax.SyntaxKindImportItems, t.seq(in, t.list(items, false)...)...)
	c := t.seq(nl, parts...)
	if paren {
		c = append(c, t.Sp(nl, false)...)
		c = append(c, tok(syntax.SyntaxKindLeftParen, "("))
		if n == 0 {
			c = append(c, list)
			c = append(c, t.Sp(NLFree, false)...)
		} else {
			c = append(c, t.Sp(NLFree, false)...)
			c = append(c, list)
			c = append(c, t.Sp(NLFree, false)...)
		}
		c = append(c, tok(syntax.SyntaxKindRightParen, ")"))
	} else {
		c = append(c, t.Sp(nl, false)...)
		c = append(c, list)
	}
	return I(syntax.SyntaxKindModuleImport, c...)
}

// Include draws a module include.
func (t T) Include(nl Newlines, d int) *N {
	return I(syntax.SyntaxKindModuleInclude, t.seq(nl, tok(syntax.SyntaxKindInclude, "include"), t.Atom(nl, d, false).N)...)
}

// Stmt draws a statement which only a code block, or a hash in markup at the end
// of a line, may hold.
func (t T) Stmt(nl Newlines, d int) *N {
	switch t.W(4, 2, 2, 2, 1) {
	case 0:
		return t.Let(nl, d)
	case 1:
		return t.SetRule(nl, d)
	case 2:
		return t.ShowRule(nl, d)
	case 3:
		return t.Import(nl, d)
	default:
		return t.Include(nl, d)
	}
}

// Line draws a line of a code block.
func (t T) Line(d int) *N {
	switch t.W(8, 6, 1, 1, 1) {
	case 0:
		return t.Expr(NLBlock, d).N
	case 1:
		return t.Stmt(NLBlock, d)
	case 2:
		if t.Chance(1, 2) {
			return I(syntax.SyntaxKindFuncReturn, tok(syntax.SyntaxKindReturn, "return"))
		}
		return I(syntax.SyntaxKindFuncReturn, t.seq(NLBlock, tok(syntax.SyntaxKindReturn, "return"), t.Expr(NLBlock, d).N)...)
	case 3:
		return I(syntax.SyntaxKindLoopBreak, tok(syntax.SyntaxKindBreak, "break"))
	default:
		return I(syntax.SyntaxKindLoopContinue, tok(syntax.SyntaxKindContinue, "continue"))
	}
}

// Lines draws the contents of a code block.
func (t T) Lines(d int) *N {
	code := I(syntax.SyntaxKindCode)
	n := t.N(4)
	for i := 0; i < n; i++ {
		code.C = append(code.C, t.Line(d))
		last := i+1 == n
		switch t.W(4, 3, 1) {
		case 0:
			if !last {
				code.C = append(code.C, L(syntax.SyntaxKindSpace, t.Pick("\n", "\n  ", "\n\n ", " \r\n")))
			}
		case 1:
			code.C = append(code.C, t.Sp(NLNone, false)...)
			code.C = append(code.C, tok(syntax.SyntaxKindSemicolon, ";"))
			if !last {
				code.C = append(code.C, t.Sp(NLFree, false)...)
			}
		case 2:
			if !last {
				code.C = append(code.C, L(syntax.SyntaxKindSpace, " "), L(syntax.SyntaxKindLineComment, "// e"), L(syntax.SyntaxKindSpace, "\n"))
			}
		}
	}
	return code
}

// CodeBlock draws a code block.
func (t T) CodeBlock(d int) *N {
	lb, rb := tok(syntax.SyntaxKindLeftBrace, "{"), tok(syntax.SyntaxKindRightBrace, "}")
	code := t.Lines(d)
	c := []*N{lb}
	if len(code.C) == 0 {
		c = append(c, code)
		c = append(c, t.Sp(NLFree, false)...)
	} else {
		c = append(c, t.Sp(NLFree, false)...)
		c = append(c, code)
		c = append(c, t.Sp(NLFree, false)...)
	}
	return I(syntax.SyntaxKindCodeBlock, append(c, rb)...)
}

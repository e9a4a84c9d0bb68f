package vgen

import (
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/mewmew/typast/typst/syntax"
)

// M is a math expression: one node, or a hash and the expression after it.
type M struct {
	N []*N
	// Whether an opening delimiter right after it would join it.
	Cont bool
	// Whether it has to be followed by trivia, as more text would go on with it.
	Open bool
	// Whether it would take attachments after it for a part of it.
	Full bool
}

func one(n *N) M { return M{N: []*N{n}} }

func (m M) text() string {
	s := ""
	for _, n := range m.N {
		s += n.Text()
	}
	return s
}

func mtext(s string) M {
	r, _ := utf8.DecodeRuneInString(s)
	return M{N: []*N{L(syntax.SyntaxKindMathText, s)}, Cont: unicode.IsLetter(r)}
}

// MathShorthands are tokens which stand for another character.
var MathShorthands = []string{
	"->>", "->", "-->", ":=", "::=", "!=", "...", "<==>", "<-->", "<--", "<-<", "<->", "<<-", "<<<", "<=>", "<==", "<~~", "<=", "<<", "<-", "<~",
	">->", ">>>", "==>", "=>", "=:", ">=", ">>", "|->", "|=>", "||", "~~>", "~>", "*", "-", "~",
}

// mathName draws an identifier or a field of one.
func (t T) mathName() *N {
	n := L(syntax.SyntaxKindMathIdent, t.Pick("ab", "alpha", "sin", "x2", "漢字", "éa", "dif", "in", "if"))
	for t.Chance(1, 4) {
		n = I(syntax.SyntaxKindFieldAccess, n, L(syntax.SyntaxKindDot, "."), L(syntax.SyntaxKindIdent, t.Pick("b", "bold", "x2", "é", "let")))
	}
	return n
}

func (t T) mathSp(need bool) []*N { return t.Sp(NLFree, need) }

// enclosed puts trivia around a node of several expressions. Where there is
// none, the node is before the trivia.
func (t T) enclosed(seq []*N, before, after bool) []*N {
	body := I(syntax.SyntaxKindMath, seq...)
	sp := t.mathSp(before)
	if len(seq) == 0 {
		return append([]*N{body}, sp...)
	}
	return append(append(sp, body), t.mathSp(after)...)
}

var mathDelims = []string{"()", "()", "()", "()", "[]", "{}", "⌈⌉", "⌊⌋", "⟨⟩", "[)", "(]", "(}", "⟅⟆"}

// Delimited draws matched delimiters and what is between them.
func (t T) Delimited(d int) *N {
	var open, cl *N
	if t.Chance(1, 10) {
		open, cl = L(syntax.SyntaxKindMathShorthand, "[|"), L(syntax.SyntaxKindMathShorthand, "|]")
	} else {
		s := []rune(mathDelims[t.N(len(mathDelims))])
		open, cl = L(syntax.SyntaxKindMathText, string(s[0])), L(syntax.SyntaxKindMathText, string(s[1]))
	}
	seq, m := t.mathSeq(d-1, t.N(4), true)
	before := len(seq) > 0 && strings.HasPrefix(seq[0].Text(), "|")
	c := append([]*N{open}, t.enclosed(seq, before, m.Open)...)
	return I(syntax.SyntaxKindMathDelimited, append(c, cl)...)
}

// mathAtom draws an expression without attachments. With call, function calls
// and roots are allowed.
func (t T) mathAtom(d int, call bool) M {
	w := 3
	if d <= 0 {
		w = 0
	}
	switch t.W(14, 5, 4, 2, 2, w, 2*w, w, 1, 2, 3) {
	case 1:
		return mtext(t.Pick("1", "0", "12", "3.14", "100", "½", "2.5"))
	case 2:
		return M{N: []*N{t.mathName()}, Cont: true}
	case 3:
		return M{N: []*N{L(syntax.SyntaxKindStr, t.Pick(`"s"`, `"a b"`, `"\"("`, `""`, `"$"`))}, Cont: true}
	case 4:
		return M{N: []*N{L(syntax.SyntaxKindEscape, t.Pick(`\#`, `\\`, `\$`, `\_`, `\^`, `\&`, `\u{41}`, `\(`, `\h`))}, Cont: true}
	case 5:
		if call {
			return one(I(syntax.SyntaxKindFuncCall, t.mathName(), t.MathArgs(d-1)))
		}
		return one(t.Delimited(d))
	case 6:
		return one(t.Delimited(d))
	case 7:
		if !call {
			return mtext("r")
		}
		// A root takes what follows, with its attachments.
		r := t.mathAttached(d-1, true, 1)
		c := append([]*N{L(syntax.SyntaxKindRoot, t.Pick("√", "√", "∛", "∜"))}, t.mathSp(false)...)
		return M{N: []*N{I(syntax.SyntaxKindMathRoot, append(c, unparen(r)...)...)}, Open: r.Open, Full: true}
	case 8:
		return one(L(syntax.SyntaxKindText, t.Pick("=\u0338", "(\u0301", "]\u0338", "👩\u200d👧")))
	case 9:
		return M{N: []*N{L(syntax.SyntaxKindHash, "#"), t.Atom(NLNone, d, true).N}, Open: true}
	case 10:
		if t.Chance(1, 2) {
			return M{N: []*N{L(syntax.SyntaxKindMathShorthand, MathShorthands[t.N(len(MathShorthands))])}, Open: true}
		}
		m := mtext(t.Pick("+", "=", "<", ">", "?", "@", "|", "%", "∑", "∞", "∂", "."))
		m.Open = true
		return m
	default:
		return mtext(t.Pick("a", "b", "x", "f", "i", "Z", "α", "π", "ℝ", "é", "漢"))
	}
}

// unparen makes parentheses around an operand group it only.
func unparen(m M) []*N {
	n := m.N[0]
	if n.K != syntax.SyntaxKindMathDelimited || n.C[0].T != "(" || n.C[len(n.C)-1].T != ")" {
		return m.N
	}
	c := append([]*N{}, n.C...)
	c[0] = L(syntax.SyntaxKindLeftParen, "(")
	c[len(c)-1] = L(syntax.SyntaxKindRightParen, ")")
	return append([]*N{I(syntax.SyntaxKindMath, c...)}, m.N[1:]...)
}

// mathBase draws an atom, perhaps with adjacent delimiters and a factorial, and
// its primes.
func (t T) mathBase(d int, call bool) (M, *N) {
	m := t.mathAtom(d, call)
	if call && m.Cont && d > 0 && t.Chance(1, 5) {
		dl := t.Delimited(d - 1)
		k := m.N[0].K
		if k != syntax.SyntaxKindMathIdent && k != syntax.SyntaxKindFieldAccess || dl.C[0].T != "(" {
			m = one(I(syntax.SyntaxKindMath, m.N[0], dl))
		}
	}
	if m.Open || m.Full {
		return m, nil
	}
	for t.Chance(1, 16) {
		// An equals sign after it would be read together with it.
		m = M{N: []*N{I(syntax.SyntaxKindMath, append(m.N, L(syntax.SyntaxKindMathText, "!"))...)}}
	}
	if t.Chance(1, 8) {
		n := I(syntax.SyntaxKindMathPrimes)
		for i, k := 0, 1+t.W(4, 2, 1); i < k; i++ {
			n.C = append(n.C, L(syntax.SyntaxKindPrime, "'"))
		}
		return m, n
	}
	return m, nil
}

// mathPlain draws an operand without attachments but primes.
func (t T) mathPlain(d int) M {
	m, primes := t.mathBase(d, false)
	if primes != nil {
		return one(I(syntax.SyntaxKindMathAttach, append(m.N, primes)...))
	}
	return m
}

func opTok(op string) *N {
	switch op {
	case "_":
		return L(syntax.SyntaxKindUnderscore, op)
	case "^":
		return L(syntax.SyntaxKindHat, op)
	}
	return L(syntax.SyntaxKindSlash, op)
}

// after adds an operator and its operand to what is before them.
func (t T) after(c []*N, open bool, op string, m M) []*N {
	if op == "/" {
		last := c[len(c)-1].Text()
		open = open || strings.HasSuffix(last, "*") || strings.HasSuffix(last, "/")
	}
	c = append(c, t.mathSp(open)...)
	c = append(c, opTok(op))
	text := m.text()
	c = append(c, t.mathSp(op == "/" && (strings.HasPrefix(text, "/") || strings.HasPrefix(text, "*")))...)
	return append(c, unparen(m)...)
}

// mathAttached draws an expression, perhaps with attachments. With call, it is
// not in an attachment itself.
func (t T) mathAttached(d int, call bool, some int) M {
	m, primes := t.mathBase(d, call)
	if d > 0 && !m.Full && t.Chance(some, 3) {
		return t.attach(m, primes, d, t.Pick("_", "^"))
	}
	if primes != nil {
		return one(I(syntax.SyntaxKindMathAttach, append(m.N, primes)...))
	}
	return m
}

// attach draws attachments, the first of which is the given one.
func (t T) attach(m M, primes *N, d int, op string) M {
	c := append([]*N{}, m.N...)
	open := m.Open
	if primes != nil {
		c = append(c, primes)
	}
	other := "_"
	if op == "_" {
		other = "^"
	}
	var last M
	if t.Chance(1, 2) {
		// An operand before the last one ends at the other operator.
		first := t.mathPlain(d - 1)
		c = t.after(c, open, op, first)
		last = t.mathLast(d-1, t.Pick("_", "^"))
		c = t.after(c, first.Open, other, last)
	} else {
		last = t.mathLast(d-1, op)
		c = t.after(c, open, op, last)
	}
	return M{N: []*N{I(syntax.SyntaxKindMathAttach, c...)}, Open: last.Open}
}

// mathLast draws the last operand of an attachment, which takes attachments
// that follow it if they start with the given one.
func (t T) mathLast(d int, op string) M {
	if d > 0 && t.Chance(1, 5) {
		m, primes := t.mathBase(d, false)
		return t.attach(m, primes, d, op)
	}
	return t.mathPlain(d)
}

// MathExpr draws a math expression.
func (t T) MathExpr(d int) M {
	m := t.mathAttached(d, true, 1)
	for d > 0 && t.Chance(1, 6) {
		r := t.mathAttached(d-1, true, 1)
		c := t.after(append([]*N{}, unparen(m)...), m.Open, "/", r)
		m = M{N: []*N{I(syntax.SyntaxKindMathFrac, c...)}, Open: r.Open}
	}
	return m
}

// mathItem draws an expression, or another thing that may be in a sequence.
func (t T) mathItem(d int, nested bool) M {
	switch t.W(20, 1, 1, 1, 2) {
	case 1:
		return M{N: []*N{L(syntax.SyntaxKindLinebreak, `\`)}, Open: true}
	case 2:
		return M{N: []*N{L(syntax.SyntaxKindMathAlignPoint, "&")}}
	case 3:
		return M{N: []*N{I(syntax.SyntaxKindMathPrimes, L(syntax.SyntaxKindPrime, "'"))}, Open: true}
	case 4:
		if nested {
			return mtext(t.Pick(",", ";"))
		}
		return M{N: mtext(t.Pick(",", ";", ")", "]", "⌋")).N}
	}
	return t.MathExpr(d)
}

// mayTouch returns whether two texts may be side by side in math and still be
// what they are.
func mayTouch(a M, b string) bool {
	if a.Open || b == "" {
		return false
	}
	l, _ := utf8.DecodeLastRuneInString(a.text())
	f, _ := utf8.DecodeRuneInString(b)
	alnum := func(r rune) bool { return 'a' <= r && r <= 'z' || '0' <= r && r <= '9' }
	switch {
	case strings.ContainsRune("0123456789", l):
		return 'a' <= f && f <= 'z' && len(a.N) == 1 && a.N[0].K == syntax.SyntaxKindMathText || strings.ContainsRune("+,?&", f)
	case strings.ContainsRune(")]}", l):
		return alnum(f) || strings.ContainsRune("+,?&\"√", f)
	case 'a' <= l && l <= 'z':
		return strings.ContainsRune("+,?&√)", f)
	case len(a.N) == 1 && (a.N[0].T == "," || a.N[0].T == ";" || a.N[0].T == "&"):
		return alnum(f) || strings.ContainsRune("(+\"√#", f)
	}
	return false
}

// mathSeq draws expressions, and returns the last of them too.
func (t T) mathSeq(d, n int, nested bool) ([]*N, M) {
	var out []*N
	var prev M
	for i := 0; i < n; i++ {
		m := t.mathItem(d, nested)
		if i > 0 {
			out = append(out, t.mathSp(!mayTouch(prev, m.text()))...)
		}
		out = append(out, m.N...)
		prev = m
	}
	return out, prev
}

// mathArg draws an expression for an argument. In arguments there is no comma.
func (t T) mathArg(d int, empty bool) ([]*N, M) {
	n := 1 + t.W(4, 2, 1)
	if empty && t.Chance(1, 8) {
		n = 0
	}
	var out []*N
	var prev M
	for i := 0; i < n; i++ {
		m := t.MathExpr(d)
		if t.Chance(1, 16) {
			m = M{N: []*N{L(syntax.SyntaxKindMathAlignPoint, "&")}}
		}
		if i > 0 {
			out = append(out, t.mathSp(!mayTouch(prev, m.text()))...)
		}
		out = append(out, m.N...)
		prev = m
	}
	if n != 1 {
		out = []*N{I(syntax.SyntaxKindMath, out...)}
	}
	return out, prev
}

// mathNamed draws a named argument.
func (t T) mathNamed(d, i int) ([]*N, M) {
	v, m := t.mathArg(d, false)
	text := ""
	for _, n := range v {
		text += n.Text()
	}
	c := []*N{L(syntax.SyntaxKindIdent, t.Pick("x", "size", "max-w", "a_b")+strconv.Itoa(i)), L(syntax.SyntaxKindColon, ":")}
	c = append(c, t.mathSp(strings.HasPrefix(text, "=") || strings.HasPrefix(text, ":"))...)
	return []*N{I(syntax.SyntaxKindNamed, append(c, v...)...)}, m
}

// MathArgs draws the arguments of a function call in math.
func (t T) MathArgs(d int) *N {
	c := append([]*N{L(syntax.SyntaxKindLeftParen, "(")}, t.mathSp(false)...)
	comma := func() *N { return L(syntax.SyntaxKindComma, ",") }
	end := func() *N {
		return I(syntax.SyntaxKindArgs, append(c, L(syntax.SyntaxKindRightParen, ")"))...)
	}
	positional := func() ([]*N, M) {
		if t.Chance(1, 8) {
			m := t.MathExpr(d)
			if text := m.text(); text[0] != '.' && text[0] != '/' {
				return []*N{I(syntax.SyntaxKindSpread, append([]*N{L(syntax.SyntaxKindDots, "..")}, m.N...)...)}, m
			}
		}
		return t.mathArg(d, true)
	}
	if t.Chance(3, 4) {
		for i, n := 0, t.N(4); i < n; i++ {
			var arg []*N
			var m M
			if t.Chance(1, 5) {
				arg, m = t.mathNamed(d, i)
			} else {
				arg, m = positional()
			}
			c = append(c, arg...)
			empty := len(arg) == 1 && arg[0].Text() == ""
			if !empty {
				// Nothing is between an empty argument and what ends it.
				c = append(c, t.mathSp(m.Open)...)
			}
			if i+1 < n || empty || t.Chance(1, 6) {
				c = append(c, comma())
				c = append(c, t.mathSp(false)...)
			}
		}
		return end()
	}
	// Arguments before a semicolon are an array.
	if t.Chance(1, 4) {
		arg, m := t.mathNamed(d, 9)
		c = append(c, arg...)
		c = append(c, t.mathSp(m.Open)...)
		c = append(c, comma())
		c = append(c, t.mathSp(false)...)
	}
	rows, names := 1+t.N(3), 0
	for r := 0; r < rows; r++ {
		row := I(syntax.SyntaxKindArray)
		var sp []*N
		last := r+1 == rows && rows > 1 && t.Chance(2, 3)
		isNamed := false
		for i, n := 0, 1+t.N(3); i < n; i++ {
			var arg []*N
			var m M
			isNamed = t.Chance(1, 10)
			if isNamed {
				// What is before a named argument belongs to no array.
				names++
				arg, m = t.mathNamed(d, 10+names)
				c = append(append(append(c, row.C...), sp...), arg...)
				row.C, sp = nil, t.mathSp(m.Open)
				if i+1 < n {
					c = append(append(append(c, sp...), comma()), t.mathSp(false)...)
					sp = nil
				}
				continue
			}
			arg, m = positional()
			empty := len(arg) == 1 && arg[0].Text() == ""
			if empty && last && i+1 == n {
				break
			}
			row.C = append(append(row.C, sp...), arg...)
			sp = nil
			if !empty {
				sp = t.mathSp(m.Open)
			}
			if i+1 < n {
				row.C = append(append(row.C, sp...), comma())
				sp = t.mathSp(false)
			}
		}
		if isNamed && !last {
			c = append(c, row)
		}
		if len(row.C) > 0 {
			c = append(c, row)
		}
		c = append(c, sp...)
		if !last {
			c = append(c, L(syntax.SyntaxKindSemicolon, ";"))
			c = append(c, t.mathSp(false)...)
		}
	}
	return end()
}

// Equation draws an equation.
func (t T) Equation(d int) *N {
	seq, m := t.mathSeq(d, t.N(6), false)
	if len(seq) > 0 && t.Chance(1, 12) {
		// A delimiter which nothing closes is no fault.
		in, m2 := t.mathSeq(d-1, 1+t.N(2), true)
		seq = append(seq, t.mathSp(true)...)
		body := append([]*N{L(syntax.SyntaxKindMathText, t.Pick("(", "[", "{"))}, t.mathSp(strings.HasPrefix(in[0].Text(), "|"))...)
		seq = append(seq, I(syntax.SyntaxKindMath, append(body, in...)...))
		m = m2
	}
	dollar := L(syntax.SyntaxKindDollar, "$")
	c := append([]*N{dollar}, t.enclosed(seq, false, m.Open)...)
	return I(syntax.SyntaxKindEquation, append(c, dollar)...)
}

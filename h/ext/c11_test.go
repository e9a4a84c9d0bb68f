package ext

import (
	"fmt"
	"strings"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

type badCase struct{ Text, Why string }

// Fragments which no line of a code block may be.
var badCode = []string{
	// Missing parts.
	"let", "let = 1", "let x =", "let (a, b)", "let f(x)", "set", "set 1", "set f", "show", "show x", "show:", "show x:", "context", "if", "if a", "if a b", "if a {} else", "if a {} else b",
	"while", "while a", "while a b", "for", "for a", "for a in", "for a in b", "for a b {}", "for a in b c", "import", "import \"a\" as", "include", "1 +", "a =", "not", "a not b", "- ", "+", "a.", "a. 1", "x =>",
	"(x) =>", "a and", "a or", "a in", "f(a b)", "(a b)", "(a: )", "(a: b c)", "f(a: )", "f(: a)", "import \"a\": b c", "import \"a\": b as", "import \"a\": b.",
	// Too much.
	"1 2", "a b", "let x = 1 let y = 2", "* a", "/ a", "== a", ", a", ") a", ": a", "=> a", "= a", "a ! b", "a & b", "a ^ b", "a | b", "a ? b", "@x", "a @ b", "~", "'", "#x", "x#", "\\", "a : b", "(,)", "(a,, b)", "f(,)", "f(a,, b)", "let \"x\" = 1", "let 1 = 2",
	"(1) => 2", "(a.b) => c", "(\"a\") => 1", "f(..)", "(..)", "1(2) => 3", "for 1 in x {}", "for a.b in x {}", "set f(x) if", "a else {}", "let if = 1", "let let", "let (if) = 1", "(if) = 1", "_", "(_)", "1 + _", "(a: 1, _)", "f(_)", "_ + 1", "in a", "and a", "a as b", "1; else {}", "a..b",
	// Keywords where names are needed.
	"let none = 1", "let true = 1", "(in: 1)", "let f(_: 1) = 1", "(_: 1) => a", "let f((a, b): 1) = 2", "((a, b): 1) => 2", "let (a, (b, c): 1) = d", "let (_: a) = b", "let (1: a) = b", "let f(1: a) = b", "let f(\"a\": 1) = b", "(\"a\": 1) => 2", "let (\"a\": b) = c", "(a.b: c) = d", "f(a.b: c)", "f(\"a\": c)", "f(1: c)", "f((a): c)", "set f(\"a\": 1)", "(let: 1)", "f(if: 1)", "x.in(", "let f(else) = 1", "import \"a\": if",
	// Duplicates and more than one sink.
	"(a: 1, a: 2)", "(\"a\": 1, \"a\": 2)", "(a: 1, \"a\": 2)", "(a: 1, b: 2, a: 3)", "f(a: 1, a: 2)", "f(a: 1, b, a: 2)", "(a, a) => a", "(a, b: 1, b: 2) => a", "(a, a: 1) => a", "(a, ..a) => a", "let f(x, x) = x", "let (a, a) = b", "let (a, (b, a)) = c", "let (a, b: a) = c", "let (..a, ..b) = c", "(..a, ..b) => c", "let f(..a, b, ..c) = 1", "let (a, ..a) = b", "for (a, a) in b {}", "let f((a, b), a) = 1", "(\"\": 1, \"\": 2)",
	// Mixed arrays and dictionaries.
	"(a: 1, 2)", "(1, a: 2)", "(:, 1)", "(: 1)", "(:, ..a, 1)", "(a, \"b\": c)", "(a, b): 1",
	// Tokens.
	"\"abc", "\"a\\\"", "1x", "1.5abc", "0b12", "0b", "0xg", "0xZZ", "0o8", "0x", "0o", "1em2", "1pxx", "12%%x", "1e", "2e+", "1.2.3", "1ptt", "0x1.2em", "0b1pt", "<a", "a <b c", "*/", "a */", "!", "`a", "```a``", "`", "99999999999999999999999zz",
}

// Fragments which no line of markup may be.
var badMarkup = []string{
	"*a", "_a", "a *b", "a *b _c* d_", "*a _b*", "#", "# x", "a #", "#)", "#]", "#=", "#+", "#,", "#;x", "#1x", "#(", "#[", "#{", "#(1", "#f(", "#f(a", "#{1", "#f[a", "#let", "#let x =", "#let 1 = 2", "#let x y", "#let x = 1 y", "#if", "#if a", "#for a", "#for a in b", "#while a", "#set f", "#set", "#show",
	"#show: ", "#import", "#include", "#context", "#\"abc", "#import \"a\" b", "#import \"a\": b c", "#12abc", "#0b2", "#_", "#*", "#-1", "#not a", "#else", "#in", "#and", "#as",
	"`a", "```a", "```a``", "````a```", "\\u{", "\\u{zz}", "\\u{110000}", "\\u{d800}", "\\u{41", "\\u{}", "<a", "<a b>", "http://a[b", "https://x(y", "http://a[(]", "*/", "a */ b", "]", "a ] b", "[a ]]",
	"/ a", "/ a b", "/ *a: b*", "@x[a", "- *a", "= _a", "+ #", "*a\n\nb*", "_a\n\nb_", "= *a\n\nb*", "- *a\n\n  b*", "#[*a]*", "*#[a*]", "#f(x)[", "#(a: 1, a: 2)", "#(1, a: 2)", "#f(a: 1, a: 2)", "#let (a, a) = b", "#let f(..a, ..b) = c",
}

// Fragments which no equation may hold.
var badMath = []string{
	"ff(ab:)", "ff(ab: , c)", "ff(ab: 1, ab: 2)", "ff(_: 1)", "ff(..)", "ff(a_)", "ff(a^)", "ff(a/)", "ff(/a)", "ff(√)", "ff(,ab: 1,ab: 1)", "ff(ab: c; ab: d)", "ff(_a)", "ff(_, b)", "ff(x, ab: #, c)",
	"ff(ab: x, c; d, ab: y)", "ff.bb(ab: 1, ab: 2)", "ff(#, b)", "#(1 2)", "#f(a b)", "#f(a: 1, a: 2)", "# a", "#f(..)", "\\u{zz}", "\\u{}", "*/", "a */ b", "a^^b", "a__b", "a/ /b", "√^2", "√_2", "a^_b", "a_^b", "a'/ /b",
	"(/a)", "(_a)", "(^a)", "[/a]", "(a (/b))", "#{1 2}", "#[*a]", "#(1, a: 2)", "#let (a, a) = b;",
}

// Fragments which no equation may start, or end, with.
var badMathStart = []string{"_a", "^a", "/a", "_", "^", "/", "/ /", "_a^b"}
var badMathEnd = []string{"a_", "a^", "a/", "a'_", "a'/", "a!^", "√", "a_√", "#", "a #", "a_#", "ff(", "ff(a", "ff(a, ", "ff(ab: ", "ff(a;", "ff(ab: c", "\"abc", "#let x =", "#if", "#(1", "#f(", "#{", "#[", "(a_", "∛", "ff(x)_", "ff.bb(", "#let x = 1 y"}

func flagged(c badCase, info *vh.Info) error {
	root := syntax.Parse(c.Text)
	info.NonTrivial = len(c.Text) > 8
	errs := vgen.Errors(root)
	if len(errs) == 0 {
		return fmt.Errorf("%q (%v) has no error", c.Text, c.Why)
	}
	if inner, ok := root.Repr.(*syntax.InnerNode); !ok || !inner.Erroneous {
		return fmt.Errorf("%q (%v) is not marked as erroneous", c.Text, c.Why)
	}
	for _, e := range errs {
		if e == "" {
			return fmt.Errorf("%q (%v) has an error without a message", c.Text, c.Why)
		}
	}
	return nil
}

func isDelim(k syntax.SyntaxKind) int {
	switch k {
	case syntax.SyntaxKindLeftParen, syntax.SyntaxKindLeftBrace, syntax.SyntaxKindLeftBracket:
		return 1
	case syntax.SyntaxKindRightParen, syntax.SyntaxKindRightBrace, syntax.SyntaxKindRightBracket:
		return -1
	}
	return 0
}

// tokens lists the tokens of a tree, with the number of delimited elements which
// are open after each.
func tokens(n *vgen.N) (toks []*vgen.N, open []int) {
	depth := 0
	var walk func(n *vgen.N)
	walk = func(n *vgen.N) {
		if n.Leaf {
			depth += isDelim(n.K)
			toks, open = append(toks, n), append(open, depth)
			return
		}
		for i, c := range n.C {
			walk(c)
			pair := n.K == syntax.SyntaxKindStrong || n.K == syntax.SyntaxKindEmph || n.K == syntax.SyntaxKindEquation
			if pair && i == 0 {
				depth++
				open[len(open)-1]++
			} else if pair && i == len(n.C)-1 {
				depth--
				open[len(open)-1]--
			}
		}
	}
	walk(n)
	return toks, open
}

func TestV_C11(t *testing.T) {
	// A bad line between good ones, within blocks.
	vh.Run(t, vh.Prop[badCase]{
		Name: "code", Weight: 35,
		Gen: func(rt *rapid.T) badCase {
			v := vgen.T{R: rt, NoMath: true}
			bad := badCode[v.N(len(badCode))]
			lines := []string{}
			for i, n := 0, v.N(3); i < n; i++ {
				lines = append(lines, v.Line(2).Text())
			}
			at := v.N(len(lines) + 1)
			if strings.Contains(bad, "`") || strings.Count(bad, "\"")%2 == 1 || strings.Contains(bad, "\\") {
				// No later line may close it.
				at = len(lines)
			}
			lines = append(lines[:at], append([]string{bad}, lines[at:]...)...)
			text := "#{\n" + strings.Join(lines, "\n") + "\n}"
			switch v.N(4) {
			case 0:
				text = "#[a " + text + " b]"
			case 1:
				text = "- " + text
			case 2:
				text = "#f(" + text[1:] + ")"
			}
			return badCase{text, bad}
		},
		Check: flagged,
	})
	vh.Run(t, vh.Prop[badCase]{
		Name: "markup", Weight: 25,
		Gen: func(rt *rapid.T) badCase {
			v := vgen.T{R: rt, NoMath: true}
			bad := badMarkup[v.N(len(badMarkup))]
			pre, post := v.Document(2).Text(), v.Document(2).Text()
			// What the pre- and postfix hold must not complete the line.
			if strings.ContainsAny(post, "*_\"`]})>:#") {
				post = v.Pick("a", "", "- x", "= y")
			}
			if v.Chance(1, 3) {
				pre = ""
			}
			return badCase{pre + "\n\n" + bad + "\n\n" + post, bad}
		},
		Check: flagged,
	})
	// A well-formed text which ends too early.
	vh.Run(t, vh.Prop[badCase]{
		Name: "cut", Weight: 20,
		Gen: func(rt *rapid.T) badCase {
			v := vgen.T{R: rt}
			toks, open := tokens(v.Document(3))
			var at []int
			for i, d := range open {
				if d > 0 {
					at = append(at, i)
				}
			}
			if len(at) == 0 {
				return badCase{"#(", "cut"}
			}
			text := ""
			for _, n := range toks[:at[v.N(len(at))]+1] {
				text += n.T
			}
			return badCase{text, "cut"}
		},
		Check: flagged,
	})
	// A well-formed text without one of its closing delimiters.
	vh.Run(t, vh.Prop[badCase]{
		Name: "unclosed", Weight: 20,
		Gen: func(rt *rapid.T) badCase {
			v := vgen.T{R: rt, NoMath: true}
			toks, _ := tokens(vgen.I(syntax.SyntaxKindMarkup, vgen.L(syntax.SyntaxKindHash, "#"), v.CodeBlock(3)))
			var at, at2 []int
			for i, n := range toks {
				switch {
				case n.T == "[" && isDelim(n.K) != 0:
					// In markup an opening bracket may be text.
					at2 = at2[:0]
				case n.T == "]" && isDelim(n.K) != 0:
					at2 = append(at2, i)
				case isDelim(n.K) < 0:
					at = append(at, i)
				case isDelim(n.K) == 0 && strings.ContainsAny(n.T, "()[]{}"):
					// A closing delimiter in a string would do when the string
					// becomes markup.
					return badCase{"#{(}", "unclosed"}
				}
			}
			at = append(at, at2...)
			k := at[v.N(len(at))]
			text := ""
			for i, n := range toks {
				if i != k {
					text += n.T
				}
			}
			return badCase{text, "without " + toks[k].T}
		},
		Check: flagged,
	})
	// A paragraph break where content may not have one.
	vh.Run(t, vh.Prop[badCase]{
		Name: "break", Weight: 10,
		Gen: func(rt *rapid.T) badCase {
			v := vgen.T{R: rt}
			gap := ""
			for _, n := range v.Break("") {
				gap += n.Text()
			}
			m := v.Pick("*", "_")
			text := m + "a" + gap + "b" + m
			if v.Chance(1, 3) {
				text = m + "a" + v.Pick(" ", "\n", " /* c */ ") + gap + v.Pick("", "/* c */ ", "// c\n") + "b #x" + m
			}
			return badCase{v.Pick("", "x\n\n", "= x\n", "#[", "- x\n\n") + text, "break"}
		},
		Check: flagged,
	})
	// Something which may be there only once, twice.
	vh.Run(t, vh.Prop[badCase]{
		Name: "twice", Weight: 20,
		Gen: func(rt *rapid.T) badCase {
			v := vgen.T{R: rt}
			sp := func() string { return v.Pick("", "", " ", " /* c */ ", "\n", " // c\n") }
			items := []string{}
			n := 2 + v.N(4)
			i := v.N(n - 1)
			j := i + 1 + v.N(n-i-1)
			kind := v.N(5)
			name := func(i int) string { return v.Pick("p", "q-", "r_") + fmt.Sprint(i) }
			clash := func() string {
				switch kind {
				case 0: // arguments
					return "z" + sp() + ":" + sp() + v.Pick("1", "a", "none", "[x]")
				case 1: // keys
					return v.Pick("z", "\"z\"", "\"\\u{7a}\"") + sp() + ":" + sp() + v.Pick("1", "a", "(b, c)")
				case 2: // parameters
					return v.Pick("z", "z"+sp()+":"+sp()+"1", ".."+sp()+"z", "((z, y), x)", "(y: z)")
				case 3: // bindings
					return v.Pick("z", "z", "y"+sp()+":"+sp()+"z", ".."+sp()+"z", "(z, x)", "((z,),)")
				}
				return ".." + v.Pick("", name(90), name(91), name(92))
			}
			for k := 0; k < n; k++ {
				if k == i || k == j {
					items = append(items, clash())
					continue
				}
				switch kind {
				case 0:
					items = append(items, v.Pick("1", "a", "..b", "[x]", name(k)+": 2"))
				case 1:
					items = append(items, v.Pick("..b", name(k)+": 2", "\""+name(k)+"\": 3"))
				case 2:
					items = append(items, v.Pick("_", name(k), name(k)+": 2", "("+name(k)+",)"))
				default:
					items = append(items, v.Pick("_", name(k), "l: "+name(k), "("+name(k)+", _)"))
				}
			}
			text := "("
			for k, it := range items {
				if k > 0 {
					text += "," + sp()
				}
				text += sp() + it + sp()
			}
			text += v.Pick("", ",") + sp() + ")"
			form := ""
			switch kind {
			case 0:
				form = v.Pick("f%s", "a.b%s", "set f%s", "let x = f%s[y]")
			case 1:
				form = v.Pick("%s", "f(%s)", "let x = %s", "(1, %s)")
			case 2:
				form = v.Pick("%s => 1", "let f%s = 1", "f(%s => x)")
			case 3:
				form = v.Pick("let %s = a", "for %s in a {}", "(%s) => 1", "let f(%s) = 1")
			default:
				form = v.Pick("let %s = a", "for %s in a {}", "%s => 1", "(%s, zz) => 1", "let f%s = 1", "%s = a")
			}
			text = fmt.Sprintf(form, text)
			text = "#{" + v.Pick("", " ", "x; ", "[a]\n") + text + v.Pick("", "\n", "; y") + "}"
			return badCase{text, "twice"}
		},
		Check: flagged,
	})
	// A fault within math.
	vh.Run(t, vh.Prop[badCase]{
		Name: "math", Weight: 20,
		Gen: func(rt *rapid.T) badCase {
			v := vgen.T{R: rt}
			seq := func() string {
				s := ""
				for i, n := 0, v.N(4); i < n; i++ {
					for _, n := range v.MathExpr(2).N {
						s += n.Text()
					}
					s += " "
				}
				return s
			}
			pre, post, bad := seq(), " "+seq(), ""
			switch v.W(4, 1, 2, 2) {
			case 0:
				bad = badMath[v.N(len(badMath))]
			case 1:
				bad, pre = badMathStart[v.N(len(badMathStart))], ""
			case 2:
				bad, post = badMathEnd[v.N(len(badMathEnd))], v.Pick("", " ", "\n")
			default:
				// An equation which is not closed.
				text := v.Equation(3).Text()
				return badCase{v.Pick("", "a ", "#[", "= a\n") + text[:len(text)-1] + v.Pick("", "]"), "unclosed equation"}
			}
			text := "$" + v.Pick("", " ", "\n") + pre + bad + post + "$"
			return badCase{v.Pick("", "a ", "- b ", "#f", "#let x = ") + text + v.Pick("", "\n", " c"), bad}
		},
		Check: flagged,
	})
	vh.Run(t, tokenProp("code", 10))
	vh.Run(t, tokenProp("markup", 10))
}

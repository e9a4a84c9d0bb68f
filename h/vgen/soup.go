package vgen

import (
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Fragments of Typst source which matter to the lexer and parser.
var Fragments = []string{
	"a", "b1", "foo", "x y", "é", "漢字", "👩‍👩‍👧", "e\u0301", "\ufffd", "\x00", "\ufeff", "\u00a0", "٣", "½",
	" ", " ", " ", "  ", "\t", "\n", "\n", "\n", "\n\n", "\r\n", "\r", "\x0b", "\u2028", "\u0085", "\n  ", "\n    ",
	"*", "*", "_", "_", "`", "``", "```", "````", "= ", "== ", "=", "- ", "-", "+ ", "+", "1. ", "23.", "/ ", "/", ":", ": ", "~",
	"--", "---", "-?", "...", "..", ".", "'", "\"", "<", ">", "<lbl>", "<l", "@ref", "@a.b:", "@", "\\", "\\ ", "\\#", "\\u{41}", "\\u{", "\\u{zz}", "\\u{d800}",
	"http://a.b/c", "https://x(y)", "http://[", "h", "//", "// c\n", "/*", "*/", "/* c */", "/* /* */ */", "#!", "#!x\n",
	"#", "#", "#", "#", "[", "[", "]", "]", "{", "{", "}", "}", "(", "(", "(", ")", ")", ")", ",", ";", "=>", " => ", " = ", "==", "!=", "<=", ">=", "+=", "-=", "*=", "/=", "!", "−", "%", "&", "^", "|",
	"let ", "let", "set ", "show ", "show: ", "context ", "if ", "else ", "else", "for ", "in ", "in", "while ", "break", "continue", "return ", "import ", "include ", "as ", "not ", "not", "and ", "or ", "none", "auto", "true", "false",
	"1", "0x1F", "0b12", "1.5", "1.", ".5", "1e5", "1e", "1.5em", "12pt", "50%", "1foo", "99999999999999999999", "\"s\"", "\"a\\n\\u{42}\"", "\"un", "\"\\\"",
	"#let x = 1\n", "#let f(x, y: 2, ..z) = x + y\n", "#f(1, a: 2)[b]", "#{ let y = (1, 2); y }", "#if a { b } else [c]\n", "#for (i, j) in k { l }\n",
	"#import \"a.typ\": b, c as d\n", "#include \"x.typ\"\n", "#set text(red)\n", "#show heading: it => it\n", "#((a, b) = c)", "#(x: 1, \"y\": 2)", "#while true { break }",
	"$", "$", "$", "$ ", " $", "$x$", "$ a/b $", "mat(1, 2; 3, 4)", "vec(a", "sin(x: ", "x_1^2", "_a", "^", "^(b c)", "√", "'", "''", "!", "||", "[|", "|]", "->", "<==>", "⌈", "⟩", "ab.cd", "..a", "α", "∑", "$ #f(x)[y] + $", "\\ ", "$//",
	"(x) => ", "(x: (y", "(a, b) = ", "(..a)", "(:)", "(,)", ".foo", ".len()", "[*b*]", "{ 1 }", "_ => 1", "a.b.c(d)[e]", "x => y => z", "=> (", "context {", "```typ\n  x\n ```", "`r`",
}

// Soup draws a text of fragments and random characters.
func (t T) Soup(max int) string {
	out := &strings.Builder{}
	n := t.N(max + 1)
	for i := 0; i < n; i++ {
		switch t.W(30, 2, 1) {
		case 0:
			out.WriteString(Fragments[t.N(len(Fragments))])
		case 1:
			out.WriteString(t.Pick("a", "(", ")", "[", "]", "{", "}", "#", " ", "\n"))
		default:
			out.WriteString(t.Char())
		}
	}
	return out.String()
}

var anyRune = rapid.Rune()

// Char draws any character.
func (t T) Char() string {
	r := anyRune.Draw(t.R, "r")
	if !utf8.ValidRune(r) {
		return "x"
	}
	return string(r)
}

// Boundaries lists the character boundaries of the text.
func Boundaries(text string) []int {
	bs := make([]int, 0, len(text)+1)
	for i := range text {
		bs = append(bs, i)
	}
	return append(bs, len(text))
}

// Mutate applies a few small edits to a text.
func (t T) Mutate(text string, n int) string {
	for i := 0; i < n; i++ {
		bs := Boundaries(text)
		a := t.N(len(bs))
		b := a + t.N(4)
		if t.Chance(1, 6) {
			b = a + t.N(len(bs)-a)
		}
		if b >= len(bs) {
			b = len(bs) - 1
		}
		ins := ""
		switch t.W(3, 3, 2) {
		case 0:
			ins = Fragments[t.N(len(Fragments))]
		case 1:
		case 2:
			// Duplicate a piece of the text.
			c := t.N(len(bs))
			d := c + t.N(8)
			if d >= len(bs) {
				d = len(bs) - 1
			}
			ins = text[bs[c]:bs[d]]
			b = a
		}
		text = text[:bs[a]] + ins + text[bs[b]:]
	}
	return text
}

// Text draws a text for total properties: soup, well-formed source, or
// well-formed source with a few edits.
func (t T) Text() string {
	switch t.W(4, 3, 4, 1) {
	case 0:
		return t.Soup(14)
	case 1:
		return t.Document(3).Text()
	case 2:
		return t.Mutate(t.Document(3).Text(), 1+t.N(4))
	default:
		return t.Soup(60)
	}
}

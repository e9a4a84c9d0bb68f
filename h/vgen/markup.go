package vgen

import (
	"strings"
	"unicode/utf8"

	"github.com/mewmew/typast/typst/syntax"
)

// in says what a piece of inline markup is within.
type in struct {
	heading bool // directly in a heading: a label would end it.
	term    bool // directly in the term of a term item: a colon would end it.
	strong  bool // directly in strong content.
	emph    bool // directly in emphasized content.
	line    bool // no newline may occur.
}

// chunk is a piece of inline markup.
type chunk struct {
	n []*N
	// Whether it starts with a letter or digit, which text before it would
	// reach for over a single space.
	alnum bool
	// Whether it ends with a text token, which reaches for what follows.
	text bool
	// Whether it may touch what is around it.
	loose bool
}

func txt(s string) *N { return L(syntax.SyntaxKindText, s) }

var words = []string{
	"a", "word", "h", "the", "ash", "some text", "two words", "x/y", "a-b", "1.5", "3 apples", "end.", "(par)", "a, b", "x;", "{y}", "a=b", "1+1",
	"100%", "a&b", "héé", "漢字", "é x", "2nd", "ok!", "why?", "a.b.c", "hah hash", "http", "0", "٣", "x\u200d", "a..b", "1.2.3", "한국", "हिन्दी", "18446744073709551616", "a@ b", "1-2", "h-h", "c/d.e", "x.", "\u00a0y", "z\u00ad",
}

func (t T) word() chunk {
	return chunk{n: []*N{txt(words[t.N(len(words))])}, alnum: true, text: true, loose: true}
}

func (t T) plain() *N { return txt(t.Pick("a", "word", "h", "two words", "é")) }

// chunk draws a piece of inline markup.
func (t T) chunk(in in, d int) chunk {
	sp := func() *N { return L(syntax.SyntaxKindSpace, t.Pick(" ", " ", "  ", "\t")) }
	switch t.W(24, 3, 3, 3, 1, 5, 5, 4, 2, 2, 3, 9, 3, 2, 2, 2, 2, 2, 4) {
	case 18:
		if t.NoMath {
			return t.word()
		}
		return chunk{n: []*N{t.Equation(min(d, 2))}, loose: true}
	case 0:
		return t.word()
	case 1:
		return chunk{n: []*N{L(syntax.SyntaxKindSmartQuote, t.Pick("'", "\""))}, loose: true}
	case 2:
		if t.Chance(1, 3) {
			return chunk{n: []*N{L(syntax.SyntaxKindShorthand, "~")}, loose: true}
		}
		if t.Chance(1, 3) {
			return chunk{n: []*N{L(syntax.SyntaxKindShorthand, "-"), txt(t.Pick("1", "2 x", "30.5", "½"))}, text: true}
		}
		return chunk{n: []*N{L(syntax.SyntaxKindShorthand, t.Pick("...", "--", "---", "-?"))}}
	case 3:
		return chunk{n: []*N{L(syntax.SyntaxKindEscape, t.Pick(`\#`, `\*`, `\\`, `\u{41}`, `\"`, `\[`, `\u{1F600}`, `\/`, `\é`, `\h`, "\\`"))}, loose: true}
	case 4:
		return chunk{n: []*N{L(syntax.SyntaxKindLinebreak, `\`), sp(), t.plain()}, text: true}
	case 5, 6:
		strong := t.Chance(1, 2)
		if strong && in.strong || !strong && in.emph {
			return t.word()
		}
		mark, kind, s := syntax.SyntaxKindUnderscore, syntax.SyntaxKindEmph, "_"
		if strong {
			mark, kind, s = syntax.SyntaxKindStar, syntax.SyntaxKindStrong, "*"
		}
		body := I(syntax.SyntaxKindMarkup)
		if d > 0 && !t.Chance(1, 10) {
			if t.Chance(1, 10) {
				body.C = append(body.C, sp())
			}
			body.C = append(body.C, t.inline(in2(strong, in.line), d-1)...)
			if !in.line && t.Chance(1, 6) {
				body.C = append(body.C, L(syntax.SyntaxKindSpace, t.Pick("\n", "\n  ", "\r\n")), t.plain())
			}
			if t.Chance(1, 10) {
				body.C = append(body.C, sp())
			}
		} else {
			body.C = append(body.C, t.plain())
		}
		if t.Chance(1, 20) {
			body.C = nil
		}
		if t.Chance(1, 12) && len(body.C) > 0 {
			// Not a word boundary for scripts without spaces.
			return chunk{n: []*N{txt(t.Pick("漢", "한", "あ", "カ")), I(kind, L(mark, s), body, L(mark, s)), txt(t.Pick("字", "국", "い", "ナ"))}, alnum: true, text: true}
		}
		return chunk{n: []*N{I(kind, L(mark, s), body, L(mark, s))}}
	case 7:
		return chunk{n: []*N{t.Raw(true)}}
	case 8:
		link := t.Pick("http://a.b/c", "https://x.y?q=(1)&[z]", "https://e.org/#frag_x*y", "http://a/,b")
		return chunk{n: []*N{L(syntax.SyntaxKindLink, link), L(syntax.SyntaxKindSpace, " "), t.plain()}, alnum: true, text: true}
	case 9:
		if in.heading {
			return t.word()
		}
		return chunk{n: []*N{L(syntax.SyntaxKindLabel, t.Pick("<x>", "<sec:a.b>", "<a-1>"))}, loose: true}
	case 10:
		ref := I(syntax.SyntaxKindRef, L(syntax.SyntaxKindRefMarker, t.Pick("@x", "@sec:a", "@a-1")))
		if d > 0 && t.Chance(1, 3) {
			ref.C = append(ref.C, t.ContentBlock(d-1))
			return chunk{n: []*N{ref}}
		}
		if t.Chance(1, 3) {
			return chunk{n: []*N{ref, txt(t.Pick(". a", ". b c"))}, text: true}
		}
		return chunk{n: []*N{ref, sp(), t.plain()}, text: true}
	case 11:
		return t.embedded(d)
	case 12:
		c := []*N{txt("[")}
		if d > 0 {
			in := in
			c = append(c, t.inline(in, d-1)...)
		}
		return chunk{n: append(c, txt("]")), loose: true}
	case 13:
		if in.term {
			return t.word()
		}
		return chunk{n: []*N{txt(":")}, loose: true}
	case 14:
		// Markers which do not start a line are text.
		m := t.Pick("-", "+", "/", "=", "==", "1.", "27.")
		return chunk{n: []*N{txt(m), L(syntax.SyntaxKindSpace, " "), t.plain()}, alnum: m[0] >= '0' && m[0] <= '9', text: true}
	case 15:
		// Stars and underscores in words are text.
		return chunk{n: []*N{txt("snake"), txt(t.Pick("_case", "*2", "_é x", "_٣", "*Ⅳ b", "_हि", "*ß"))}, alnum: true, text: true}
	case 16:
		return chunk{n: []*N{txt(t.Pick("< b", "> c", "& d", "=x", "+y", "/z", ".e", "@)", "% 5", "(q"))}, text: true}
	default:
		if !in.line {
			return chunk{n: []*N{t.plain(), L(syntax.SyntaxKindSpace, " "), L(syntax.SyntaxKindBlockComment, t.BlockComment()), t.plain()}, alnum: true, text: true}
		}
		return t.word()
	}
}

func in2(strong, line bool) in { return in{strong: strong, emph: !strong, line: line} }

// embedded draws a code expression in markup, which does not end with the line.
func (t T) embedded(d int) chunk {
	hash := L(syntax.SyntaxKindHash, "#")
	if d > 0 && t.Chance(1, 6) {
		return chunk{n: []*N{hash, t.Stmt(NLNone, d-1), L(syntax.SyntaxKindSemicolon, ";")}, loose: true}
	}
	n := t.embeddedExpr(d)
	if t.Chance(1, 3) {
		return chunk{n: []*N{hash, n, L(syntax.SyntaxKindSemicolon, ";")}, loose: true}
	}
	text := n.Text()
	if strings.ContainsAny(text[len(text)-1:], "])}\"`") && t.Chance(1, 2) {
		return chunk{n: []*N{hash, n}}
	}
	return chunk{n: []*N{hash, n, L(syntax.SyntaxKindSpace, " "), t.plain()}, text: true}
}

func (t T) embeddedExpr(d int) *N {
	if d > 0 {
		switch t.W(8, 1, 1, 1, 1) {
		case 1:
			return t.Conditional(NLNone, d-1)
		case 2:
			return t.For(NLNone, d-1)
		case 3:
			return t.While(NLNone, d-1)
		case 4:
			return I(syntax.SyntaxKindContextual, t.seq(NLNone, L(syntax.SyntaxKindContext, "context"), t.Atom(NLNone, d-1, true).N)...)
		}
	}
	return t.Atom(NLNone, d, true).N
}

// inline draws the markup of a line. It starts and ends with a token that is no
// trivia, and does not start like a block element.
func (t T) inline(in in, d int) []*N {
	var out []*N
	last := t.word()
	if d > 0 && t.Chance(2, 3) {
		last = t.first(in, d)
	}
	out = append(out, last.n...)
	n := t.N(4)
	for i := 0; i < n; i++ {
		next := t.chunk(in, d)
		space := !last.loose || !next.loose || last.text && next.text
		switch {
		case last.text && next.alnum:
			switch t.W(6, 1, 1) {
			case 0:
				out = append(out, L(syntax.SyntaxKindSpace, t.Pick("  ", "\t", " \t")))
			case 1:
				out = append(out, L(syntax.SyntaxKindSpace, " "), L(syntax.SyntaxKindBlockComment, t.BlockComment()), L(syntax.SyntaxKindSpace, " "))
			case 2:
				out = append(out, L(syntax.SyntaxKindBlockComment, t.BlockComment()))
			}
		case space || t.Chance(1, 2):
			out = append(out, L(syntax.SyntaxKindSpace, t.Pick(" ", " ", "  ", "\t")))
			if t.Chance(1, 10) {
				out = append(out, L(syntax.SyntaxKindBlockComment, t.BlockComment()), L(syntax.SyntaxKindSpace, " "))
			}
		}
		out = append(out, next.n...)
		last = next
	}
	return out
}

// first draws a chunk which does not start like a block element.
func (t T) first(in in, d int) chunk {
	c := t.chunk(in, d)
	s := c.n[0]
	if s.Leaf && (s.K == syntax.SyntaxKindText || s.K == syntax.SyntaxKindShorthand) && strings.ContainsAny(s.T[:1], "-+/=0123456789.<>&@%(:[") {
		return t.word()
	}
	return c
}

// newline draws the trivia between two lines of a block whose lines start at
// the given column.
func (t T) newline(col int, comment bool) []*N {
	indent := strings.Repeat(" ", col)
	if comment && t.Chance(1, 10) {
		return []*N{L(syntax.SyntaxKindSpace, " "), L(syntax.SyntaxKindLineComment, t.LineComment()), L(syntax.SyntaxKindSpace, "\n"+indent)}
	}
	switch t.W(8, 3, 1, 1, 1) {
	case 0:
		return []*N{L(syntax.SyntaxKindSpace, "\n"+indent)}
	case 1:
		return []*N{L(syntax.SyntaxKindParbreak, t.Pick("\n\n", "\n\n", "\n \n", "\n\n\n", "\r\n\r\n", "\r\r", "\n\r", "\u2028\n", "\f \x0b", "\u0085\u2029")+indent)}
	case 2:
		return []*N{L(syntax.SyntaxKindSpace, t.Pick("\r\n", " \n", "\r", "\u2028", "\f")+indent)}
	case 3:
		return t.Break(indent)
	default:
		return []*N{L(syntax.SyntaxKindSpace, "\n"+indent), L(syntax.SyntaxKindBlockComment, t.BlockComment()), L(syntax.SyntaxKindSpace, "\n"+indent)}
	}
}

// Break draws trivia with at least one paragraph break and a comment, which ends
// in a line break and the given indentation.
func (t T) Break(indent string) []*N {
	var out []*N
	at, n := 0, 1+t.N(3)
	if n > 1 {
		at = t.N(n)
	}
	for i := 0; i < n; i++ {
		if i == at || t.Chance(1, 3) {
			out = append(out, L(syntax.SyntaxKindParbreak, t.Pick("\n\n", "\n \n", "\r\n\n")+indent))
		} else {
			out = append(out, L(syntax.SyntaxKindSpace, "\n"+indent))
		}
		if t.Chance(1, 4) {
			out = append(out, L(syntax.SyntaxKindLineComment, t.LineComment()))
		} else {
			out = append(out, L(syntax.SyntaxKindBlockComment, t.Pick(t.BlockComment(), "/*\n\n*/")))
		}
	}
	return append(out, L(syntax.SyntaxKindSpace, "\n"+indent))
}

// block draws lines which start at the given column. The first line starts
// where the text is. Nested block elements are on deeper columns.
func (t T) block(col, d int) []*N {
	var out []*N
	n := 1 + t.N(4)
	for i := 0; i < n; i++ {
		if i > 0 {
			out = append(out, t.newline(col, true)...)
		}
		out = append(out, t.blockLine(col, d)...)
	}
	return out
}

func (t T) blockLine(col, d int) []*N {
	w := 4
	if d <= 0 {
		w = 0
	}
	switch t.W(10, w, w, w, w/2, w) {
	case 1:
		return t.heading(d - 1)
	case 2:
		return []*N{t.item(syntax.SyntaxKindListItem, syntax.SyntaxKindListMarker, "-", col, d-1)}
	case 3:
		return []*N{t.item(syntax.SyntaxKindEnumItem, syntax.SyntaxKindEnumMarker, t.Pick("+", "1.", "23.", "0.", "18446744073709551615.", "007."), col, d-1)}
	case 4:
		return []*N{t.termItem(col, d-1)}
	case 5:
		hash := L(syntax.SyntaxKindHash, "#")
		if t.Chance(2, 3) {
			return []*N{hash, t.Stmt(NLNone, d-1)}
		}
		return []*N{hash, t.embeddedExpr(d - 1)}
	default:
		return t.inline(in{}, d)
	}
}

func (t T) heading(d int) []*N {
	marker := L(syntax.SyntaxKindHeadingMarker, t.Pick("=", "==", "===", "======="))
	if t.Chance(1, 12) {
		return []*N{I(syntax.SyntaxKindHeading, marker, I(syntax.SyntaxKindMarkup))}
	}
	out := []*N{I(syntax.SyntaxKindHeading, marker)}
	out[0].C = append(out[0].C, t.gap()...)
	out[0].C = append(out[0].C, I(syntax.SyntaxKindMarkup, t.inline(in{heading: true, line: true}, d)...))
	if t.Chance(1, 4) {
		out = append(out, L(syntax.SyntaxKindSpace, " "), L(syntax.SyntaxKindLabel, t.Pick("<x>", "<sec:y>")))
	}
	return out
}

// gap draws what is behind a marker, which may be a comment.
func (t T) gap() []*N {
	sp := L(syntax.SyntaxKindSpace, t.Pick(" ", " ", " ", "  ", "\t"))
	switch t.W(12, 1, 1, 1) {
	case 1:
		return []*N{L(syntax.SyntaxKindBlockComment, t.BlockComment()), sp}
	case 2:
		return []*N{sp, L(syntax.SyntaxKindBlockComment, t.BlockComment())}
	case 3:
		return []*N{L(syntax.SyntaxKindBlockComment, t.BlockComment())}
	}
	return []*N{sp}
}

// item draws a list or enumeration item whose marker is at the given column.
func (t T) item(kind, markerKind Kind, marker string, col, d int) *N {
	n := I(kind, L(markerKind, marker))
	deeper := col + 1 + t.N(3)
	body := I(syntax.SyntaxKindMarkup)
	first := true
	switch t.W(10, 2, 1, 1) {
	case 0:
		n.C = append(n.C, t.gap()...)
		body.C = t.inline(in{}, d)
	case 1:
		// A block element on the same line.
		gap := t.gap()
		n.C = append(n.C, gap...)
		at := col + len(marker)
		for _, g := range gap {
			at += utf8.RuneCountInString(g.T)
		}
		if d > 0 && t.Chance(3, 4) {
			body.C = []*N{t.item(syntax.SyntaxKindListItem, syntax.SyntaxKindListMarker, "-", at, d-1)}
		} else {
			body.C = t.heading(d)
		}
	case 2:
		// The body is on the next line.
		n.C = append(n.C, L(syntax.SyntaxKindSpace, "\n"+strings.Repeat(" ", deeper)))
		body.C = t.block(deeper, d)
		first = false
	default:
		n.C = append(n.C, body)
		return n
	}
	if first && d > 0 && t.Chance(1, 2) {
		// What follows on deeper columns belongs to the item, and to the
		// innermost item on whose column it is not.
		if last := body.C[len(body.C)-1]; last.K != syntax.SyntaxKindListItem {
			body.C = append(body.C, t.newline(deeper, true)...)
			body.C = append(body.C, t.block(deeper, d-1)...)
		}
	}
	n.C = append(n.C, body)
	return n
}

func (t T) termItem(col, d int) *N {
	n := I(syntax.SyntaxKindTermItem, L(syntax.SyntaxKindTermMarker, "/"), L(syntax.SyntaxKindSpace, t.Pick(" ", "  ")))
	n.C = append(n.C, I(syntax.SyntaxKindMarkup, t.inline(in{term: true, line: true}, d)...))
	if t.Chance(1, 5) {
		n.C = append(n.C, L(syntax.SyntaxKindSpace, " "))
	}
	n.C = append(n.C, L(syntax.SyntaxKindColon, ":"))
	body := I(syntax.SyntaxKindMarkup)
	deeper := col + 1 + t.N(3)
	switch t.W(8, 1, 1) {
	case 0:
		n.C = append(n.C, L(syntax.SyntaxKindSpace, " "))
		body.C = t.inline(in{}, d)
		if d > 0 && t.Chance(1, 3) {
			body.C = append(body.C, t.newline(deeper, true)...)
			body.C = append(body.C, t.block(deeper, d-1)...)
		}
	case 1:
		n.C = append(n.C, L(syntax.SyntaxKindSpace, "\n"+strings.Repeat(" ", deeper)))
		body.C = t.block(deeper, d)
	}
	n.C = append(n.C, body)
	return n
}

// ContentBlock draws a content block.
func (t T) ContentBlock(d int) *N {
	body := I(syntax.SyntaxKindMarkup)
	switch {
	case d <= 0:
		if t.Chance(2, 3) {
			body.C = append(body.C, t.plain())
		}
	case t.Chance(1, 4):
		// Lines of their own. There is nothing that says where lines start.
		col := t.N(5)
		body.C = append(body.C, L(syntax.SyntaxKindSpace, "\n"+strings.Repeat(" ", col)))
		body.C = append(body.C, t.block(col, d-1)...)
		body.C = append(body.C, L(syntax.SyntaxKindSpace, t.Pick("\n", "\n ", "\r\n")))
	default:
		if t.Chance(1, 8) {
			body.C = append(body.C, L(syntax.SyntaxKindSpace, " "))
		}
		body.C = append(body.C, t.inline(in{}, d-1)...)
		if t.Chance(1, 8) {
			body.C = append(body.C, L(syntax.SyntaxKindSpace, " "))
		}
	}
	return I(syntax.SyntaxKindContentBlock, L(syntax.SyntaxKindLeftBracket, "["), body, L(syntax.SyntaxKindRightBracket, "]"))
}

// Document draws a document.
func (t T) Document(d int) *N {
	n := I(syntax.SyntaxKindMarkup)
	col := 0
	if t.Chance(1, 12) {
		n.C = append(n.C, L(syntax.SyntaxKindShebang, t.Pick("#!/usr/bin/env typst", "#!")), L(syntax.SyntaxKindSpace, "\n"))
	} else if t.Chance(1, 8) {
		col = t.N(3)
		n.C = append(n.C, L(syntax.SyntaxKindSpace, "\n"+strings.Repeat(" ", col)))
	}
	if t.Chance(1, 30) {
		return n
	}
	n.C = append(n.C, t.block(col, d)...)
	if t.Chance(1, 3) {
		n.C = append(n.C, L(syntax.SyntaxKindSpace, t.Pick("\n", " ", " \n")))
	}
	return n
}

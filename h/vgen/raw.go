package vgen

import (
	"strings"
	"unicode"

	"github.com/mewmew/typast/typst/syntax"
)

// RawTree is the tree of a raw element with the given number of backticks (1,
// or 3 and more) around the given text, as documented for raw elements.
func RawTree(backticks int, inner string) *N {
	delim := strings.Repeat("`", backticks)
	n := I(syntax.SyntaxKindRaw, L(syntax.SyntaxKindRawDelim, delim))
	if backticks < 3 {
		// Lines are text, newlines are trimmed.
		for {
			i, l := nextNewline(inner)
			if i < 0 {
				break
			}
			n.C = append(n.C, L(syntax.SyntaxKindText, inner[:i]), L(syntax.SyntaxKindRawTrimmed, inner[i:i+l]))
			inner = inner[i+l:]
		}
		n.C = append(n.C, L(syntax.SyntaxKindText, inner), L(syntax.SyntaxKindRawDelim, delim))
		return n
	}

	// Mark each character as language (l), trimmed (t) or text (x), line by line.
	rest := inner
	lang := identPrefix(rest)
	rest = rest[len(lang):]
	type line struct{ text, nl string } // the line, and the newline before it.
	var lines []line
	nl := ""
	for {
		i, l := nextNewline(rest)
		if i < 0 {
			lines = append(lines, line{rest, nl})
			break
		}
		lines = append(lines, line{rest[:i], nl})
		nl = rest[i : i+l]
		rest = rest[i+l:]
	}
	if lang != "" {
		n.C = append(n.C, L(syntax.SyntaxKindRawLang, lang))
	}
	last := len(lines) - 1

	// The dedent is the least indentation of the lines after the first which
	// are not blank, and of the last line.
	dedent := -1
	for i, l := range lines {
		if i == 0 && last != 0 {
			continue
		}
		if i != last && blank(l.text) {
			continue
		}
		indent := 0
		for _, r := range l.text {
			if !unicode.IsSpace(r) {
				break
			}
			indent++
		}
		if dedent < 0 || indent < dedent {
			dedent = indent
		}
	}

	// Trimmed text is collected until the next text.
	trimmed := ""
	text := func(s string) {
		if trimmed != "" {
			n.C = append(n.C, L(syntax.SyntaxKindRawTrimmed, trimmed))
			trimmed = ""
		}
		n.C = append(n.C, L(syntax.SyntaxKindText, s))
	}
	for i, l := range lines {
		t := l.text
		trimmed += l.nl
		tail := ""
		if i == last {
			if blank(t) {
				trimmed += t
				continue
			}
			if strings.HasSuffix(strings.TrimRightFunc(t, unicode.IsSpace), "`") && strings.HasSuffix(t, " ") {
				t, tail = t[:len(t)-1], " "
			}
		}
		if i == 0 {
			if blank(t) {
				trimmed += t
			} else {
				if strings.HasPrefix(t, " ") {
					trimmed += " "
					t = t[1:]
				}
				text(t)
			}
		} else {
			cut := 0
			for k := 0; k < dedent && cut < len(t); k++ {
				_, w := firstRune(t[cut:])
				cut += w
			}
			trimmed += t[:cut]
			text(t[cut:])
		}
		trimmed += tail
	}
	if trimmed != "" {
		n.C = append(n.C, L(syntax.SyntaxKindRawTrimmed, trimmed))
	}
	n.C = append(n.C, L(syntax.SyntaxKindRawDelim, delim))
	return n
}

func firstRune(s string) (rune, int) {
	for i, r := range s {
		if i == 0 {
			return r, len(string(r))
		}
	}
	return 0, 0
}

func blank(s string) bool { return strings.TrimFunc(s, unicode.IsSpace) == "" }

// IsNewline reports whether the character ends a line.
func IsNewline(r rune) bool {
	return strings.ContainsRune("\n\v\f\r\u0085\u2028\u2029", r)
}

// nextNewline is the position and length of the next line ending.
func nextNewline(s string) (int, int) {
	for i, r := range s {
		if IsNewline(r) {
			if strings.HasPrefix(s[i:], "\r\n") {
				return i, 2
			}
			return i, len(string(r))
		}
	}
	return -1, 0
}

// identPrefix is the longest identifier at the start of s. Language tags are
// generated from ASCII and letters only.
func identPrefix(s string) string {
	for i, r := range s {
		start := unicode.IsLetter(r) || r == '_'
		cont := start || unicode.IsDigit(r) || r == '-'
		if i == 0 && !start {
			return ""
		}
		if !cont {
			return s[:i]
		}
	}
	return s
}

// RawInner draws the text within a raw element which ends at a run of the given
// number of backticks.
func (t T) RawInner(backticks int, newlines bool) string {
	out := &strings.Builder{}
	if backticks >= 3 && t.Chance(1, 3) {
		out.WriteString(t.Pick("typ", "c", "rust-x", "é"))
	}
	n := t.N(9)
	for i := 0; i < n; i++ {
		switch t.W(4, 4, 3, 1, 1, 1) {
		case 0:
			out.WriteString(t.Pick("a", "x y", "#f(x)", "é", "漢", "]", "[", "*/", "//", "\\", "\"", "{", "1"))
		case 1:
			out.WriteString(t.Pick(" ", "  ", "    ", "\t", " \t"))
		case 2:
			if newlines {
				out.WriteString(t.Pick("\n", "\n", "\n\n", "\r\n", "\n  ", "\n    "))
			}
		case 3:
			if newlines {
				out.WriteString(t.Pick("\r", "\v", "\f", "\u0085", "\u2028", "\u2029", "\n\u00a0 "))
			}
		case 4:
			out.WriteString(strings.Repeat("`", 1+t.N(3)))
		case 5:
			out.WriteString(t.Pick("\u00a0", "\u3000"))
		}
	}
	s := out.String()
	// No run of backticks may be as long as the delimiter, and none may be at
	// either end, where it would join the delimiter.
	run := 0
	fixed := &strings.Builder{}
	for _, r := range s {
		if r == '`' {
			run++
			if run >= backticks || fixed.Len() == 0 {
				continue
			}
		} else {
			run = 0
		}
		fixed.WriteRune(r)
	}
	s = fixed.String()
	if strings.HasSuffix(s, "`") {
		s += t.Pick(" ", " ", "x", "  ")
	}
	if s == "" {
		s = "r"
	}
	return s
}

// Raw draws a raw element.
func (t T) Raw(newlines bool) *N {
	backticks := []int{1, 1, 3, 3, 4, 5}[t.N(6)]
	return RawTree(backticks, t.RawInner(backticks, newlines))
}

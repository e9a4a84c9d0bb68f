package ext

import (
	"fmt"
	"testing"
	"unicode/utf8"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

// lineText draws text of characters which matter for line and column numbers.
func lineText(v vgen.T, n int) string {
	out := ""
	for i, n := 0, v.N(n); i < n; i++ {
		switch v.W(5, 6, 5, 1) {
		case 0:
			out += v.Pick("a", "b c", "#", " ")
		case 1:
			out += v.Pick("\n", "\r\n", "\r", "\n", "\v", "\f", "\u0085", "\u2028", "\u2029", "\n\r")
		case 2:
			out += v.Pick("é", "漢", "😀", "\U00010000", "\U0010ffff", "\ufffd", "\ufeff", "\u2027", "\u202a", "\u0084", "\ue000", "e\u0301", "\x00")
		default:
			out += v.Char()
		}
	}
	return out
}

// mark is what a naive scan knows about a character boundary.
type mark struct{ b, u, line, col uint }

// scan lists the character boundaries of a text, and where its lines start.
func scan(text string) (marks []mark, starts []uint) {
	rs := []rune(text)
	m := mark{}
	starts = []uint{0}
	for i := 0; ; i++ {
		marks = append(marks, m)
		if i == len(rs) {
			return marks, starts
		}
		r := rs[i]
		m.b += uint(utf8.RuneLen(r))
		m.u++
		if r > 0xffff {
			m.u++
		}
		m.col++
		if vgen.IsNewline(r) && !(r == '\r' && i+1 < len(rs) && rs[i+1] == '\n') {
			m.line, m.col = m.line+1, 0
			starts = append(starts, m.b)
		}
	}
}

// agree compares all conversions of the lines with a naive scan of the text.
func agree(l *syntax.Lines, text string, far []uint) error {
	marks, starts := scan(text)
	if l.Text != text {
		return fmt.Errorf("the text is %q", l.Text)
	}
	end := marks[len(marks)-1]
	if l.LenBytes() != end.b || l.LenUtf16() != end.u || l.LenLines() != uint(len(starts)) {
		return fmt.Errorf("lengths are %d, %d, %d; want %d, %d, %d", l.LenBytes(), l.LenUtf16(), l.LenLines(), end.b, end.u, len(starts))
	}
	is := func(what string, at any, got uint, ok bool, want uint, wantOK bool) error {
		if ok != wantOK || ok && got != want {
			return fmt.Errorf("%v of %v is %v, %v; want %v, %v", what, at, got, ok, want, wantOK)
		}
		return nil
	}
	for _, m := range marks {
		line, ok := l.ByteToLine(m.b)
		if err := is("ByteToLine", m.b, line, ok, m.line, true); err != nil {
			return err
		}
		col, ok := l.ByteToColumn(m.b)
		if err := is("ByteToColumn", m.b, col, ok, m.col, true); err != nil {
			return err
		}
		p, ok := l.ByteToLineColumn(m.b)
		if !ok || p != (syntax.Position{Line: m.line, Col: m.col}) {
			return fmt.Errorf("ByteToLineColumn of %v is %v, %v; want %v", m.b, p, ok, m)
		}
		u, ok := l.ByteToUtf16(m.b)
		if err := is("ByteToUtf16", m.b, u, ok, m.u, true); err != nil {
			return err
		}
		b, ok := l.Utf16ToByte(m.u)
		if err := is("Utf16ToByte", m.u, b, ok, m.b, true); err != nil {
			return err
		}
		b, ok = l.LineColumnToByte(m.line, m.col)
		if err := is("LineColumnToByte", p, b, ok, m.b, true); err != nil {
			return err
		}
	}
	// Positions inside of a character.
	for i := 1; i < len(marks); i++ {
		m, next := marks[i-1], marks[i]
		for b := m.b + 1; b < next.b; b++ {
			if utf8.RuneStart(text[b]) {
				continue // the line feed of a CRLF
			}
			line, ok := l.ByteToLine(b)
			if err := is("ByteToLine", b, line, ok, m.line, true); err != nil {
				return err
			}
			var oks [3]bool
			_, oks[0] = l.ByteToColumn(b)
			_, oks[1] = l.ByteToLineColumn(b)
			_, oks[2] = l.ByteToUtf16(b)
			if oks != [3]bool{} {
				return fmt.Errorf("the byte %d inside of a character has a column or UTF-16 index: %v", b, oks)
			}
		}
		for u := m.u + 1; u < next.u; u++ {
			// Between the two units of a character.
			if b, ok := l.Utf16ToByte(u); ok && b != next.b {
				return fmt.Errorf("the UTF-16 index %d inside of a character is byte %d; want none, or %d", u, b, next.b)
			}
		}
	}
	for i, s := range starts {
		b, ok := l.LineToByte(uint(i))
		if err := is("LineToByte", i, b, ok, s, true); err != nil {
			return err
		}
		e := end.b
		if i+1 < len(starts) {
			e = starts[i+1]
		}
		r, ok := l.LineToRange(uint(i))
		if !ok || uint(r.Start) != s || uint(r.End) != e {
			return fmt.Errorf("LineToRange of %v is %v, %v; want %d, %d", i, r, ok, s, e)
		}
		chars := uint(utf8.RuneCountInString(text[s:e]))
		for _, f := range append([]uint{1}, far...) {
			if chars+f < chars {
				continue
			}
			b, ok := l.LineColumnToByte(uint(i), chars+f)
			if err := is("LineColumnToByte", []uint{uint(i), chars + f}, b, ok, 0, false); err != nil {
				return err
			}
		}
	}
	for _, f := range append([]uint{1}, far...) {
		if end.b+f < f || end.u+f < f {
			continue
		}
		var oks [8]bool
		_, oks[0] = l.ByteToLine(end.b + f)
		_, oks[1] = l.ByteToColumn(end.b + f)
		_, oks[2] = l.ByteToLineColumn(end.b + f)
		_, oks[3] = l.ByteToUtf16(end.b + f)
		_, oks[4] = l.Utf16ToByte(end.u + f)
		_, oks[5] = l.LineToByte(uint(len(starts)) - 1 + f)
		_, oks[6] = l.LineToRange(uint(len(starts)) - 1 + f)
		_, oks[7] = l.LineColumnToByte(uint(len(starts))-1+f, 0)
		if oks != [8]bool{} {
			return fmt.Errorf("%d beyond the end is found: %v", f, oks)
		}
	}
	return nil
}

type linesCase struct {
	Text string
	Far  []uint
}

func TestV_C06(t *testing.T) {
	vh.Run(t, vh.Prop[linesCase]{
		Name: "conversions", Weight: 100,
		Gen: func(rt *rapid.T) linesCase {
			v := vgen.T{R: rt}
			c := linesCase{Text: lineText(v, 25)}
			c.Far = append(c.Far, []uint{2, 7, 1 << 16, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 60}[v.N(7)])
			return c
		},
		Check: func(c linesCase, info *vh.Info) error {
			_, starts := scan(c.Text)
			info.NonTrivial = len(starts) > 1 && len(c.Text) > 3
			info.Label(len(starts) > 3, "more than three lines")
			info.Label(utf8.RuneCountInString(c.Text) != len(c.Text), "non-ASCII")
			return agree(syntax.NewLines(c.Text), c.Text, c.Far)
		},
	})
}

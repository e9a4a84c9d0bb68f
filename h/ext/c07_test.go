package ext

import (
	"fmt"
	"testing"
	"unicode/utf8"

	"github.com/mewmew/typast/internal/ranges"
	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

func TestV_C07(t *testing.T) {
	vh.Run(t, vh.Prop[vgen.History]{
		Name: "edits", Weight: 100,
		Gen: func(rt *rapid.T) vgen.History {
			v := vgen.T{R: rt}
			h := vgen.History{Text: lineText(v, 15)}
			text := h.Text
			for i, n := 0, 1+v.N(6); i < n; i++ {
				bs := vgen.Boundaries(text)
				var e vgen.Edit
				if v.Chance(1, 4) {
					e = vgen.Edit{All: true, With: lineText(v, 10)}
					if v.Chance(2, 3) {
						// A part of the text changes.
						a := v.N(len(bs))
						b := a + v.N(len(bs)-a)
						e.With = text[:bs[a]] + lineText(v, 3) + text[bs[b]:]
					}
				} else {
					a := v.N(len(bs))
					b := min(a+v.N(4), len(bs)-1)
					e = vgen.Edit{A: bs[a], B: bs[b], With: lineText(v, 4)}
				}
				h.Edits = append(h.Edits, e)
				text = e.Apply(text)
			}
			return h
		},
		Check: func(c vgen.History, info *vh.Info) error {
			l := syntax.NewLines(c.Text)
			text := c.Text
			for i, e := range c.Edits {
				old := text
				text = e.Apply(text)
				where := fmt.Sprintf("edit %d of %q to %q", i, old, text)
				if e.All {
					r, changed := l.ReplacementRange(text)
					if changed != (old != text) {
						return fmt.Errorf("%v: replacement range %v, %v", where, r, changed)
					}
					if changed {
						p, s := r.Prefix, r.Suffix
						n, m := uint(len(old)), uint(len(text))
						if p+s > n || p+s > m || old[:p] != text[:p] || old[n-s:] != text[m-s:] {
							return fmt.Errorf("%v: prefix %d and suffix %d are not common", where, p, s)
						}
						if !boundary(old, uint64(p)) || !boundary(old, uint64(n-s)) || !boundary(text, uint64(p)) || !boundary(text, uint64(m-s)) {
							return fmt.Errorf("%v: prefix %d or suffix %d ends within a character", where, p, s)
						}
						// The smallest edit: no further character is common.
						a, x := utf8.DecodeRuneInString(old[p : n-s])
						b, y := utf8.DecodeRuneInString(text[p : m-s])
						if x > 0 && y > 0 && a == b {
							return fmt.Errorf("%v: the prefix could be longer than %d", where, p)
						}
						a, x = utf8.DecodeLastRuneInString(old[p : n-s])
						b, y = utf8.DecodeLastRuneInString(text[p : m-s])
						if x > 0 && y > 0 && a == b {
							return fmt.Errorf("%v: the suffix could be longer than %d", where, s)
						}
					}
					if got := l.Replace(text); got != changed {
						return fmt.Errorf("%v: Replace says %v", where, got)
					}
				} else {
					l.Edit(ranges.NewRange(uint64(e.A), uint64(e.B)), e.With)
				}
				if err := agree(l, text, nil); err != nil {
					return fmt.Errorf("%v: %v", where, err)
				}
				info.NonTrivial = info.NonTrivial || old != text
				info.Label(e.All, "replace")
				info.Label(!e.All && e.A > 0 && old[e.A-1] == '\r', "edit after a carriage return")
			}
			return nil
		},
	})
}

package ext

import (
	"fmt"
	"testing"
	"unicode/utf8"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

type leaf struct {
	start, end uint64
	text       string
}

// leaves lists kind and text of all leaves with their ranges.
func leaves(node *syntax.SyntaxNode) []leaf {
	var out []leaf
	at := uint64(0)
	var walk func(node *syntax.SyntaxNode)
	walk = func(node *syntax.SyntaxNode) {
		add := func(kind, text string) {
			end := at + uint64(len(text))
			out = append(out, leaf{at, end, kind + " " + text})
			at = end
		}
		switch n := node.Repr.(type) {
		case *syntax.LeafNode:
			add(n.Kind.String(), n.Text)
		case *syntax.ErrorNode:
			add("ERROR "+n.Error.Message, n.Text)
		case *syntax.InnerNode:
			for _, c := range n.Children {
				walk(c)
			}
		}
	}
	walk(node)
	return out
}

func TestV_C04(t *testing.T) {
	vh.Run(t, vh.Prop[vgen.History]{
		Name: "edits", Weight: 100,
		Gen: func(rt *rapid.T) vgen.History { return vgen.T{R: rt}.History(8) },
		Check: func(c vgen.History, info *vh.Info) error {
			src := syntax.NewDetachedSource(c.Text)
			text := c.Text
			for i, e := range c.Edits {
				old := text
				oldLeaves := leaves(src.Root)
				text = e.Apply(text)
				r := play(src, e)
				where := fmt.Sprintf("edit %d of %q to %q", i, old, text)
				if src.Text() != text {
					return fmt.Errorf("%v: the text is %q", where, src.Text())
				}
				if got := vgen.TextOf(src.Root); got != text {
					return fmt.Errorf("%v: the tree holds %q", where, got)
				}
				// The lines are those of the new text.
				want := syntax.NewLines(text)
				if src.Lines.LenBytes() != want.LenBytes() || src.Lines.LenUtf16() != want.LenUtf16() || src.Lines.LenLines() != want.LenLines() {
					return fmt.Errorf("%v: lines have length %d, %d, %d", where, src.Lines.LenBytes(), src.Lines.LenUtf16(), src.Lines.LenLines())
				}
				for l := uint(0); l < want.LenLines(); l++ {
					a, aok := src.Lines.LineToRange(l)
					b, bok := want.LineToRange(l)
					if a != b || aok != bok {
						return fmt.Errorf("%v: line %d is %v %v, not %v %v", where, l, a, aok, b, bok)
					}
				}
				// The range is one of the new text.
				if r.Start > r.End || r.End > uint64(len(text)) {
					return fmt.Errorf("%v: the range %v is not in the text", where, r)
				}
				if old == text && e.All {
					if r.Start != r.End {
						return fmt.Errorf("%v: no change, but range %v", where, r)
					}
					continue
				}
				if !boundary(text, r.Start) || !boundary(text, r.End) {
					return fmt.Errorf("%v: the range %v splits a character", where, r)
				}
				if !e.All && (r.Start > uint64(e.A) || r.End < uint64(e.A+len(e.With))) {
					return fmt.Errorf("%v: the range %v does not cover the edit %d-%d", where, r, e.A, e.A+len(e.With))
				}
				// What is outside of the range was there before.
				rest := uint64(len(text)) - r.End
				if rest > uint64(len(old)) || r.Start > uint64(len(old)) || old[:r.Start] != text[:r.Start] || old[uint64(len(old))-rest:] != text[r.End:] {
					return fmt.Errorf("%v: the text differs outside of the range %v", where, r)
				}
				newLeaves := leaves(src.Root)
				k := 0
				for k < len(newLeaves) && newLeaves[k].end <= r.Start && newLeaves[k].end > newLeaves[k].start {
					if k >= len(oldLeaves) || oldLeaves[k] != newLeaves[k] {
						return fmt.Errorf("%v: token %q before the range %v is new", where, newLeaves[k].text, r)
					}
					k++
				}
				j := 0
				for j < len(newLeaves) {
					n := newLeaves[len(newLeaves)-1-j]
					if n.start < r.End || n.start == n.end {
						break
					}
					if j >= len(oldLeaves) || oldLeaves[len(oldLeaves)-1-j].text != n.text {
						return fmt.Errorf("%v: token %q after the range %v is new", where, n.text, r)
					}
					j++
				}
				info.NonTrivial = info.NonTrivial || k > 0 || j > 0
				info.Label(k > 0 && j > 0, "tokens kept on both sides")
				info.Label(len(text) != utf8.RuneCountInString(text), "non-ASCII")
				info.Label(e.All, "replace")
			}
			return nil
		},
	})
}

func boundary(text string, i uint64) bool {
	return i == uint64(len(text)) || utf8.RuneStart(text[i])
}

package ext

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/mewmew/typast/internal/ranges"
	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

// kept lists kind and span of the nodes which are not within a range, and hence
// are not touched by an edit which reparses it.
func kept(root *syntax.SyntaxNode, from, to int) (out []string, outer int) {
	for _, p := range places(root) {
		switch {
		case p.start == p.end && p.start >= from && p.start <= to:
			// An empty node may belong to either side.
		case p.start >= from && p.end <= to:
		case p.end <= from || p.start >= to || p.start <= from && p.end >= to:
			if p.start <= from && p.end >= to {
				outer++
			}
			out = append(out, fmt.Sprintf("%v with number %v", p.node.SyntaxKind(), spanOf(p.node).Number()))
		default:
			// Partly within the range, which the edit made a part of a node.
			out = append(out, fmt.Sprintf("%v across the end of the range", p.node.SyntaxKind()))
		}
	}
	return out, outer
}

type wordCase struct {
	Text string
	// The word to edit, of those there are, where in it, and how.
	Edits []wordEdit
}

type wordEdit struct {
	Word, At int
	With     string
	Del      bool // deletes a letter
	Replace  bool // by a replacement of the whole text
}

// words lists the places of identifiers and words, as start and end.
func words(ps []place) (out []place) {
	for i, p := range ps {
		l, ok := p.node.Repr.(*syntax.LeafNode)
		if !ok {
			continue
		}
		switch l.Kind {
		case syntax.SyntaxKindText, syntax.SyntaxKindIdent, syntax.SyntaxKindMathIdent, syntax.SyntaxKindStr:
		default:
			continue
		}
		for k := 0; k < len(l.Text); {
			n := k
			for n < len(l.Text) && (l.Text[n] >= 'a' && l.Text[n] <= 'z' || l.Text[n] >= 'A' && l.Text[n] <= 'Z') {
				n++
			}
			if n-k >= 3 {
				out = append(out, place{node: p.node, start: p.start + k, end: p.start + n, parent: i})
			}
			k = n + 1
		}
	}
	return out
}

// inChild reports whether a node is below the child of the markup which holds
// the word.
func inChild(ps []place, k, markup, at, to int) bool {
	for k > markup {
		if ps[k].parent == markup {
			return ps[k].start <= at && ps[k].end >= to
		}
		k = ps[k].parent
	}
	return false
}

// shapeOf writes the kinds of a tree.
func shapeOf(root *syntax.SyntaxNode) string {
	b := &strings.Builder{}
	var walk func(n *syntax.SyntaxNode)
	walk = func(n *syntax.SyntaxNode) {
		fmt.Fprint(b, int(n.SyntaxKind()))
		if in, ok := n.Repr.(*syntax.InnerNode); ok {
			b.WriteByte('(')
			for _, c := range in.Children {
				walk(c)
				b.WriteByte(' ')
			}
			b.WriteByte(')')
		}
	}
	walk(root)
	return b.String()
}

func TestV_C35(t *testing.T) {
	// Whatever the edit, what is outside of the reparsed range is as it was.
	vh.Run(t, vh.Prop[vgen.History]{
		Name: "outside", Weight: 60,
		Gen: func(rt *rapid.T) vgen.History { return vgen.T{R: rt}.History(4) },
		Check: func(c vgen.History, info *vh.Info) error {
			src := syntax.NewDetachedSource(c.Text)
			for i, e := range c.Edits {
				if i >= 5 {
					// Numbers may be used up.
					break
				}
				old := src.Text()
				text := e.Apply(old)
				snapshot := func(from, to int) []string { out, _ := kept(src.Root, from, to); return out }
				// The range is known only after the edit, so edit a twin first.
				twin := syntax.NewDetachedSource(c.Text)
				for _, e := range c.Edits[:i] {
					play(twin, e)
				}
				r := play(twin, e)
				from, to := int(r.Start), len(old)-(len(text)-int(r.End))
				if e.All && old == text {
					from, to = 0, 0
				}
				was := snapshot(from, to)
				if got := play(src, e); got != r {
					return fmt.Errorf("edit %d of %q gives the range %v, and then %v", i, c.Text, r, got)
				}
				is, outer := kept(src.Root, from, to+len(text)-len(old))
				if !slices.Equal(was, is) {
					for k := range min(len(was), len(is)) {
						if was[k] != is[k] {
							return fmt.Errorf("edit %d of %q, %q to %q: outside of the range %v, there is %v, which was %v", i, c.Text, old, text, r, is[k], was[k])
						}
					}
					return fmt.Errorf("edit %d of %q, %q to %q: outside of the range %v, there are %v nodes, not %v", i, c.Text, old, text, r, len(is), len(was))
				}
				info.NonTrivial = info.NonTrivial || len(is) > 1
				info.Label(len(is) > 1, "nodes kept")
				info.Label(outer > 1, "reparsed within an element")
			}
			return nil
		},
	})
	// A letter more or less in a word reparses but what is near.
	vh.Run(t, vh.Prop[wordCase]{
		Name: "words", Weight: 40,
		Gen: func(rt *rapid.T) wordCase {
			v := vgen.T{R: rt}
			c := wordCase{}
			for range 1 + v.N(4) {
				c.Text += v.Document(3).Text() + "\n\n"
			}
			for range 1 + v.N(3) {
				c.Edits = append(c.Edits, wordEdit{v.N(200), v.N(8), v.Pick("q", "x", "qq", "w"), v.Chance(1, 4), v.Chance(1, 4)})
			}
			return c
		},
		Check: func(c wordCase, info *vh.Info) error {
			src := syntax.NewDetachedSource(c.Text)
			if len(errorsIn(src.Root)) > 0 {
				return nil
			}
			for i, e := range c.Edits {
				old := src.Text()
				ps := places(src.Root)
				ws := words(ps)
				if len(ws) == 0 {
					return nil
				}
				w := ws[e.Word%len(ws)]
				at := w.start + 1 + e.At%(w.end-w.start-1)
				to, with := at, e.With
				if e.Del && w.end-w.start > 3 && at+1 < w.end {
					to, with = at+1, ""
				}
				text := old[:at] + with + old[to:]
				fresh := syntax.Parse(text)
				if shapeOf(fresh) != shapeOf(src.Root) {
					// The word means something else.
					continue
				}
				var spans []syntax.Span
				for _, p := range ps {
					spans = append(spans, spanOf(p.node))
				}
				where := fmt.Sprintf("edit %d of %q, %q at %v to %q", i, old, old[at:to], at, with)
				var r ranges.Range
				if e.Replace {
					r = src.Replace(text)
				} else {
					r = src.Edit(ranges.NewRange(uint64(at), uint64(to)), with)
				}
				from, end := int(r.Start), len(old)-(len(text)-int(r.End))
				// The innermost block around the word, and the innermost markup
				// whose children can be reparsed on their own.
				block, markup := -1, -1
				for k := w.parent; k >= 0; k = ps[k].parent {
					switch ps[k].node.SyntaxKind() {
					case syntax.SyntaxKindCodeBlock, syntax.SyntaxKindContentBlock:
						if block < 0 {
							block = k
						}
					case syntax.SyntaxKindMarkup:
						if markup < 0 && block < 0 && (ps[k].parent < 0 || ps[ps[k].parent].node.SyntaxKind() == syntax.SyntaxKindContentBlock) {
							markup = k
						}
					}
				}
				if block >= 0 && (from < ps[block].start || end > ps[block].end) {
					return fmt.Errorf("%v: reparsed %v to %v, but there is a block from %v to %v", where, from, end, ps[block].start, ps[block].end)
				}
				if markup >= 0 {
					n, before, after := 0, 0, 0
					for _, k := range ps[markup].children {
						if t := old[ps[k].start:ps[k].end]; ps[k].end > from && ps[k].start < end && !ps[k].trivia() && t != ";" && t != ":" && t != "/" {
							n++
							if ps[k].end <= at {
								before++
							}
							if ps[k].start >= to {
								after++
							}
						}
					}
					if n > 8 {
						return fmt.Errorf("%v: reparsed %v nodes of %v: %v before, %v after: %q", where, n, len(ps[markup].children), before, after, old[from:end])
					}
				}
				// Nothing but the parts of the document around the word is new.
				after := places(src.Root)
				for k, p := range ps {
					switch {
					case markup >= 0 && inChild(ps, k, markup, at, to):
					case markup < 0 && k >= block && k <= ps[block].last:
					case spanOf(after[k].node) != spans[k]:
						return fmt.Errorf("%v: %v %q at %v has number %v, which was %v", where, p.node.SyntaxKind(), old[p.start:p.end], p.start, spanOf(after[k].node).Number(), spans[k].Number())
					}
				}
				info.NonTrivial = true
				info.Label(block >= 0, "within a block")
				info.Label(markup == 0, "in the document itself")
			}
			return nil
		},
	})
}

func errorsIn(root *syntax.SyntaxNode) []string { return vgen.Errors(root) }

package ext

import (
	"fmt"
	"testing"

	"github.com/mewmew/typast/internal/option"
	"github.com/mewmew/typast/internal/ranges"
	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

type spanCase struct {
	vgen.History
	Pick []uint64
}

func spanOf(node *syntax.SyntaxNode) syntax.Span {
	switch n := node.Repr.(type) {
	case *syntax.LeafNode:
		return n.Span
	case *syntax.InnerNode:
		return n.Span
	case *syntax.ErrorNode:
		return n.Error.Span
	}
	return 0
}

// spans checks all spans of a source, and returns how many there are.
func spans(src *syntax.Source, id syntax.FileID, pick []uint64, find bool) (int, error) {
	type located struct {
		span syntax.Span
		r    ranges.Range
	}
	var all []located
	at := uint64(0)
	var walk func(node *syntax.SyntaxNode)
	walk = func(node *syntax.SyntaxNode) {
		i := len(all)
		all = append(all, located{spanOf(node), ranges.NewRange(at, 0)})
		switch n := node.Repr.(type) {
		case *syntax.LeafNode:
			at += uint64(len(n.Text))
		case *syntax.ErrorNode:
			at += uint64(len(n.Text))
		case *syntax.InnerNode:
			for _, c := range n.Children {
				walk(c)
			}
		}
		all[i].r.End = at
	}
	walk(src.Root)
	used := map[uint64]bool{}
	last := uint64(0)
	for i, l := range all {
		n := l.span.Number()
		if got, ok := l.span.ID(); !ok || got != id {
			return 0, fmt.Errorf("node %d at %v has a span of file %v, not %v", i, l.r, got, id)
		}
		if l.span.IsDetached() {
			return 0, fmt.Errorf("node %d at %v has a detached span", i, l.r)
		}
		if r, ok := l.span.RawRange(); ok {
			return 0, fmt.Errorf("node %d at %v has the range %v for a span", i, l.r, r)
		}
		if used[n] {
			return 0, fmt.Errorf("node %d at %v has the number %d of another node", i, l.r, n)
		}
		used[n] = true
		if n <= last && i > 0 {
			return 0, fmt.Errorf("node %d at %v has number %d after %d: not in order", i, l.r, n, last)
		}
		last = n
	}
	if !find {
		return len(all), nil
	}
	// To find a node takes long, so do not try all in a long text.
	for i, l := range all {
		n := l.span.Number()
		if len(all) > 12 && i != len(all)-1 && uint64(i) != pick[0]%uint64(len(all)) && uint64(i) != pick[1]%uint64(len(all)) {
			continue
		}
		r, ok := src.Range(l.span)
		if !ok || r != l.r {
			return 0, fmt.Errorf("node %d at %v with number %d is found at %v, %v", i, l.r, n, r, ok)
		}
		link, ok := src.Find(l.span)
		if !ok || link.Range() != l.r {
			return 0, fmt.Errorf("node %d at %v with number %d is not found", i, l.r, n)
		}
	}
	// Spans which no node has are not found.
	miss := func(s syntax.Span) error {
		if r, ok := src.Range(s); ok {
			return fmt.Errorf("found %v for the span %d of no node", r, s.Uint64())
		}
		if _, ok := src.Find(s); ok {
			return fmt.Errorf("found a node for the span %d of no node", s.Uint64())
		}
		return nil
	}
	other := syntax.NewFileID(option.None[*syntax.PackageSpec](), syntax.NewVirtualPath("/other.typ"))
	if err := miss(syntax.NewDetachedSpan()); err != nil {
		return 0, err
	}
	for i, p := range pick {
		if i > 0 && len(all) > 40 {
			break
		}
		l := all[p%uint64(len(all))]
		if s, ok := syntax.NewSpanFromNumber(other, l.span.Number()); ok {
			if err := miss(s); err != nil {
				return 0, fmt.Errorf("other file: %v", err)
			}
		}
		for _, n := range []uint64{l.span.Number() + 1, l.span.Number() - 1, p} {
			if s, ok := syntax.NewSpanFromNumber(id, n); ok && !used[n] {
				if err := miss(s); err != nil {
					return 0, err
				}
			}
		}
		if err := miss(syntax.NewSpanFromRange(id, l.r)); err != nil {
			return 0, fmt.Errorf("raw range: %v", err)
		}
	}
	return len(all), nil
}

func firstSpan(root *syntax.SyntaxNode) syntax.Span {
	if n, ok := root.Repr.(*syntax.InnerNode); ok && len(n.Children) > 0 {
		return spanOf(n.Children[0])
	}
	return spanOf(root)
}

// runCase is many insertions next to each other.
type runCase struct {
	Wrap, Pre, Post string
	Units           []string
	Step, N         int
	Pick            []uint64
	// Edits around the last insertion, where numbers are short.
	After []nearEdit
}

// nearEdit replaces text at an offset from the place of the last insertion.
type nearEdit struct {
	Off, Len int
	With     string
}

func TestV_C05(t *testing.T) {
	vh.Run(t, vh.Prop[spanCase]{
		Name: "edits", Weight: 97,
		Gen: func(rt *rapid.T) spanCase {
			v := vgen.T{R: rt}
			c := spanCase{History: v.History(6)}
			for i := 0; i < 3; i++ {
				c.Pick = append(c.Pick, rapid.Uint64Range(0, 1<<47-1).Draw(rt, "p"))
			}
			return c
		},
		Check: func(c spanCase, info *vh.Info) error {
			src := syntax.NewDetachedSource(c.Text)
			id := src.ID
			n, err := spans(src, id, c.Pick, len(c.Edits)%2 == 0)
			if err != nil {
				return fmt.Errorf("fresh %q: %v", c.Text, err)
			}
			info.NonTrivial = n > 5
			info.Label(n > 50, "more than 50 nodes")
			text := c.Text
			for i, e := range c.Edits {
				old := text
				text = e.Apply(text)
				play(src, e)
				if _, err := spans(src, id, c.Pick, i+1 == len(c.Edits)); err != nil {
					return fmt.Errorf("edit %d of %q to %q: %v", i, old, text, err)
				}
			}
			return nil
		},
	})
	vh.Run(t, vh.Prop[runCase]{
		Name: "run", Weight: 3,
		Gen: func(rt *rapid.T) runCase {
			v := vgen.T{R: rt}
			c := runCase{
				Pre:  v.Pick("", "", "a ", "a\n\n", "#{ a; ", "#[a] ", "- a\n", "= A\n", "*a "),
				Post: v.Pick("", " b", "\n\nb", " }", " b; c }", "] b", "~~ ~~", "*"), Wrap: v.Pick("", "#[ ", "#[", "#{ "), Step: v.N(3), N: 20 + v.N(60),
				Pick: []uint64{rapid.Uint64Range(0, 1<<47-1).Draw(rt, "p"), 3, 7},
			}
			// A unit that is already there is not new, so take turns.
			for range 1 + v.N(3) {
				c.Units = append(c.Units, v.Pick("#x ", "*a* ", "#[] ", "a\n\n", "{}", "x; ", "- a\n", "[a]", "\"s\" ", "~", "--", "\\a"))
			}
			if len(c.Units) > 1 {
				c.N += v.N(60)
			}
			if v.Chance(1, 2) {
				c.Units = append(c.Units, v.Pick("#[x y] ", "#[x *y* z] ", "#[[x] #[y] z] ", "#[x\n\ny]", "[#[x]]", "#{[x y]} "))
				for range 1 + v.N(12) {
					c.After = append(c.After, nearEdit{v.N(16) - 2, v.N(2), v.Pick("", "x", "y", "z", "~", "*", " ", "\n", "#x", "[", "]", "[q]", "#[q r] ", "*q* ")})
				}
			}
			return c
		},
		Check: func(c runCase, info *vh.Info) error {
			text := c.Wrap + c.Pre + c.Post
			src := syntax.NewDetachedSource(text)
			at := len(c.Wrap + c.Pre)
			renumbered := 0
			for i := range c.N {
				first := firstSpan(src.Root)
				unit := c.Units[i%len(c.Units)]
				play(src, vgen.Edit{A: at, B: at, With: unit})
				if firstSpan(src.Root) != first {
					renumbered++
				}
				switch c.Step {
				case 1:
					at += len(unit)
				case 2:
					at += len(unit) * (i % 2)
				}
				if _, err := spans(src, src.ID, c.Pick, i+1 == c.N); err != nil {
					return fmt.Errorf("after %v times %q at %v of %q: %v", i+1, c.Units, at, text, err)
				}
			}
			for i, e := range c.After {
				text := src.Text()
				from := min(max(at+e.Off, 0), len(text))
				to := min(from+e.Len, len(text))
				play(src, vgen.Edit{A: from, B: to, With: e.With})
				if _, err := spans(src, src.ID, c.Pick, i+1 == len(c.After)); err != nil {
					return fmt.Errorf("after edit %v of %q, %v to %v to %q: %v", i+1, text, from, to, e.With, err)
				}
			}
			info.NonTrivial = c.N > 30
			info.Label(len(c.After) > 0, "edited where numbers are short")
			info.Label(renumbered > 0, "the first node got a new number")
			return nil
		},
	})
}

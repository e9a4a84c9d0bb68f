package ext

import (
	"fmt"
	"strings"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

// full prints a tree with the hints of errors.
func full(node *syntax.SyntaxNode) string {
	out := &strings.Builder{}
	var walk func(n *syntax.SyntaxNode, depth int)
	walk = func(node *syntax.SyntaxNode, depth int) {
		fmt.Fprintf(out, "%*s", depth, "")
		switch n := node.Repr.(type) {
		case *syntax.LeafNode:
			fmt.Fprintf(out, "%v %q\n", n.Kind, n.Text)
		case *syntax.InnerNode:
			fmt.Fprintf(out, "%v\n", n.Kind)
			for _, c := range n.Children {
				walk(c, depth+1)
			}
		case *syntax.ErrorNode:
			fmt.Fprintf(out, "ERROR %q %q %q\n", n.Error.Message, n.Error.Hints, n.Text)
		}
	}
	walk(node, 0)
	return out.String()
}

func TestV_C03(t *testing.T) {
	vh.Run(t, vh.Prop[vgen.History]{
		Name: "edits", Weight: 100,
		Gen: func(rt *rapid.T) vgen.History { return vgen.T{R: rt}.History(8) },
		Check: func(c vgen.History, info *vh.Info) error {
			src := syntax.NewDetachedSource(c.Text)
			text := c.Text
			for i, e := range c.Edits {
				before := text
				text = e.Apply(text)
				r := play(src, e)
				part := r.End-r.Start < uint64(len(text))
				info.Label(part && !e.All, "incremental")
				info.Label(!part, "whole file")
				info.Label(part && e.All, "incremental replace")
				info.NonTrivial = info.NonTrivial || part && before != text
				want, got := full(syntax.Parse(text)), full(src.Root)
				if want != got {
					return fmt.Errorf("edit %d of %q to %q: %v", i, before, text, vgen.DiffText(want, got))
				}
			}
			return nil
		},
	})
}

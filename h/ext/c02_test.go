package ext

import (
	"fmt"
	"testing"

	"github.com/mewmew/typast/internal/ranges"
	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

// bookkeeping recomputes what inner nodes say about what is below them.
func bookkeeping(node *syntax.SyntaxNode) (length, descendants uint64, erroneous bool, err error) {
	switch n := node.Repr.(type) {
	case *syntax.LeafNode:
		return uint64(len(n.Text)), 1, false, nil
	case *syntax.ErrorNode:
		return uint64(len(n.Text)), 1, true, nil
	case *syntax.InnerNode:
		descendants = 1
		for _, c := range n.Children {
			l, d, e, err := bookkeeping(c)
			if err != nil {
				return 0, 0, false, err
			}
			length, descendants, erroneous = length+l, descendants+d, erroneous || e
		}
		if uint64(n.Len) != length || uint64(n.Descendants) != descendants || n.Erroneous != erroneous {
			return 0, 0, false, fmt.Errorf("%v %q says length %d, descendants %d, erroneous %v; has %d, %d, %v",
				n.Kind, vgen.TextOf(node), n.Len, n.Descendants, n.Erroneous, length, descendants, erroneous)
		}
		return length, descendants, erroneous, nil
	}
	return 0, 0, false, fmt.Errorf("unknown node %T", node.Repr)
}

// play applies the edit to the source.
func play(src *syntax.Source, e vgen.Edit) ranges.Range {
	if e.All {
		return src.Replace(e.With)
	}
	return src.Edit(ranges.NewRange(uint64(e.A), uint64(e.B)), e.With)
}

func TestV_C02(t *testing.T) {
	vh.Run(t, vh.Prop[textCase]{
		Name: "parse", Weight: 50,
		Gen: func(rt *rapid.T) textCase { return textCase{vgen.T{R: rt}.Text()} },
		Check: func(c textCase, info *vh.Info) error {
			_, n, bad, err := bookkeeping(syntax.Parse(c.Text))
			info.NonTrivial = n > 4
			info.Label(bad, "erroneous")
			return err
		},
	})
	vh.Run(t, vh.Prop[vgen.History]{
		Name: "edits", Weight: 50,
		Gen: func(rt *rapid.T) vgen.History { return vgen.T{R: rt}.History(6) },
		Check: func(c vgen.History, info *vh.Info) error {
			src := syntax.NewDetachedSource(c.Text)
			for i, e := range c.Edits {
				play(src, e)
				_, n, bad, err := bookkeeping(src.Root)
				if err != nil {
					return fmt.Errorf("after edit %d: %v", i, err)
				}
				info.NonTrivial = info.NonTrivial || n > 4
				info.Label(bad && i == 0, "erroneous")
			}
			return nil
		},
	})
}

package ext

import (
	"fmt"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

type treeCase struct{ Text, Want string }

// wantTree compares the tree of the text with the expected one.
func wantTree(c treeCase, info *vh.Info) error {
	got := vgen.MeaningOf(syntax.Parse(c.Text))
	info.NonTrivial = len(c.Text) > 6
	if got != c.Want {
		return fmt.Errorf("text %q: %v", c.Text, vgen.DiffText(c.Want, got))
	}
	return nil
}

func tree(n *vgen.N) treeCase { return treeCase{n.Text(), n.Sexp()} }

func TestV_C09(t *testing.T) {
	markup := func(c ...*vgen.N) *vgen.N { return vgen.I(syntax.SyntaxKindMarkup, c...) }
	hash := vgen.L(syntax.SyntaxKindHash, "#")
	vh.Run(t, vh.Prop[treeCase]{
		Name: "block", Weight: 55,
		Gen: func(rt *rapid.T) treeCase {
			return tree(markup(hash, vgen.T{R: rt}.CodeBlock(3)))
		},
		Check: wantTree,
	})
	vh.Run(t, vh.Prop[treeCase]{
		Name: "expression", Weight: 25,
		Gen: func(rt *rapid.T) treeCase {
			v := vgen.T{R: rt}
			return tree(markup(hash, v.Paren(v.Expr(vgen.NLFree, 3))))
		},
		Check: wantTree,
	})
	vh.Run(t, vh.Prop[treeCase]{
		Name: "statement", Weight: 20,
		Gen: func(rt *rapid.T) treeCase {
			v := vgen.T{R: rt}
			return tree(markup(hash, v.Stmt(vgen.NLNone, 3)))
		},
		Check: wantTree,
	})
	vh.Run(t, vh.Prop[treeCase]{
		Name: "code", Weight: 12,
		Gen: func(rt *rapid.T) treeCase { return tree(vgen.T{R: rt}.Lines(3)) },
		Check: func(c treeCase, info *vh.Info) error {
			info.NonTrivial = len(c.Text) > 6
			if got := vgen.MeaningOf(syntax.VerifParseCode(c.Text)); got != c.Want {
				return fmt.Errorf("code %q: %v", c.Text, vgen.DiffText(c.Want, got))
			}
			return nil
		},
	})
	vh.Run(t, tokenProp("code", 20))
}

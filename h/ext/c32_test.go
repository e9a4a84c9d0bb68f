package ext

import (
	"fmt"
	"strings"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

func TestV_C32(t *testing.T) {
	vh.Run(t, vh.Prop[treeCase]{
		Name: "equation", Weight: 100,
		Gen: func(rt *rapid.T) treeCase {
			v := vgen.T{R: rt}
			return tree(vgen.I(syntax.SyntaxKindMarkup, v.Equation(1+v.N(4))))
		},
		Check: func(c treeCase, info *vh.Info) error {
			for _, k := range []string{"math attachments", "math fraction", "math root", "math primes", "delimited math", "function call", "array", "named pair", "spread", "math shorthand", "hash", "escape sequence", "math alignment point"} {
				info.Label(strings.Contains(c.Want, k), k)
			}
			return wantTree(c, info)
		},
	})
	vh.Run(t, vh.Prop[treeCase]{
		Name: "math", Weight: 15,
		Gen: func(rt *rapid.T) treeCase {
			v := vgen.T{R: rt}
			eq := v.Equation(1 + v.N(4))
			in := vgen.I(syntax.SyntaxKindMath)
			for _, c := range eq.C[1 : len(eq.C)-1] {
				if !c.Leaf && c.K == syntax.SyntaxKindMath {
					in.C = append(in.C, c.C...)
				} else {
					in.C = append(in.C, c)
				}
			}
			// Primes of the last subscript are left alone at the end of the text,
			// where an equation has its dollar sign.
			last := len(in.C) - 1
			for last >= 0 && in.C[last].K.IsTrivia() {
				last--
			}
			if last >= 0 && strings.HasSuffix(in.C[last].Text(), "'") {
				in = vgen.I(syntax.SyntaxKindMath, vgen.L(syntax.SyntaxKindMathText, "z"))
			}
			return tree(in)
		},
		Check: func(c treeCase, info *vh.Info) error {
			info.NonTrivial = len(c.Text) > 6
			if got := vgen.MeaningOf(syntax.VerifParseMath(c.Text)); got != c.Want {
				return fmt.Errorf("math %q: %v", c.Text, vgen.DiffText(c.Want, got))
			}
			return nil
		},
	})
	vh.Run(t, tokenProp("math", 25))
}

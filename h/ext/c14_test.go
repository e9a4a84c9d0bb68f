package ext

import (
	"strings"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

func TestV_C14(t *testing.T) {
	check := func(c treeCase, info *vh.Info) error {
		info.Label(strings.ContainsFunc(c.Text, vgen.IsNewline), "several lines")
		info.Label(strings.Contains(c.Want, "raw language"), "language")
		info.Label(strings.Count(c.Want, "raw trimmed") > 1, "trimmed twice")
		return wantTree(c, info)
	}
	vh.Run(t, vh.Prop[treeCase]{
		Name: "markup", Weight: 70,
		Gen: func(rt *rapid.T) treeCase {
			return tree(vgen.I(syntax.SyntaxKindMarkup, vgen.T{R: rt}.Raw(true)))
		},
		Check: check,
	})
	vh.Run(t, vh.Prop[treeCase]{
		Name: "code", Weight: 30,
		Gen: func(rt *rapid.T) treeCase {
			v := vgen.T{R: rt}
			l := func(k syntax.SyntaxKind, s string) *vgen.N { return vgen.L(k, s) }
			args := vgen.I(syntax.SyntaxKindArgs, l(syntax.SyntaxKindLeftParen, "("), v.Raw(true), l(syntax.SyntaxKindComma, ","), v.Raw(true), l(syntax.SyntaxKindRightParen, ")"))
			call := vgen.I(syntax.SyntaxKindFuncCall, l(syntax.SyntaxKindIdent, "f"), args)
			return tree(vgen.I(syntax.SyntaxKindMarkup, l(syntax.SyntaxKindHash, "#"), call))
		},
		Check: check,
	})
}

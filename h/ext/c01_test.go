package ext

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

type textCase struct{ Text string }

func TestV_C01(t *testing.T) {
	check := func(c textCase, info *vh.Info) error {
		root := syntax.Parse(c.Text)
		if root.SyntaxKind() != syntax.SyntaxKindMarkup {
			return fmt.Errorf("the root is %v", root.SyntaxKind())
		}
		if got := vgen.TextOf(root); got != c.Text {
			return fmt.Errorf("leaves hold %q, not %q", got, c.Text)
		}
		buf := &bytes.Buffer{}
		syntax.PrintNode(buf, root)
		if got := buf.String(); got != c.Text {
			return fmt.Errorf("prints %q, not %q", got, c.Text)
		}
		errs := vgen.Errors(root)
		info.NonTrivial = len(c.Text) > 3 && utf8.RuneCountInString(c.Text) > 2
		info.Label(len(errs) > 0, "has errors")
		info.Label(len(errs) == 0, "no errors")
		info.Label(strings.Contains(c.Text, "`"), "raw")
		info.Label(strings.Contains(c.Text, "#"), "code")
		info.Label(len(c.Text) > 200, "long")
		info.Label(len(c.Text) != utf8.RuneCountInString(c.Text), "non-ASCII")
		return nil
	}
	vh.Run(t, vh.Prop[textCase]{
		Name: "text", Weight: 90,
		Gen:   func(rt *rapid.T) textCase { return textCase{vgen.T{R: rt}.Text()} },
		Check: check,
	})
	vh.Run(t, vh.Prop[textCase]{
		Name: "chars", Weight: 8,
		Gen: func(rt *rapid.T) textCase {
			v := vgen.T{R: rt}
			out := ""
			for i, n := 0, v.N(12); i < n; i++ {
				out += v.Char()
			}
			return textCase{out}
		},
		Check: check,
	})
	vh.Run(t, vh.Prop[textCase]{
		Name: "deep", Weight: 2,
		Gen: func(rt *rapid.T) textCase {
			v := vgen.T{R: rt}
			// A pair which nests, many times over.
			pairs := [][2]string{{"#[", "]"}, {"#{", "}"}, {"[", "]"}, {"*_", "_*"}, {"#f[", "]"}, {"#{[", "]}"}, {"/*", "*/"}, {"#if a [", "]"}, {"#{{", "}}"}, {"#f(x => {", "})"}, {"#{-", "}"}}
			p := pairs[v.N(len(pairs))]
			n := 1 + v.N(400)
			return textCase{strings.Repeat(p[0], n) + v.Soup(4) + strings.Repeat(p[1], n-v.N(2)*v.N(n))}
		},
		Check: check,
	})
}

package ext

import (
	"strings"
	"testing"

	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

func TestV_C10(t *testing.T) {
	vh.Run(t, vh.Prop[treeCase]{
		Name: "document", Weight: 100,
		Gen: func(rt *rapid.T) treeCase { return tree(vgen.T{R: rt}.Document(3)) },
		Check: func(c treeCase, info *vh.Info) error {
			for _, k := range []string{"heading", "list item", "enum item", "term list item", "strong", "emph", "raw", "reference\n", "content block", "link"} {
				info.Label(strings.Contains(c.Want, k), strings.TrimSpace(k))
			}
			return wantTree(c, info)
		},
	})
	vh.Run(t, tokenProp("markup", 30))
}

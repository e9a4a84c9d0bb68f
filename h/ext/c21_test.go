package ext

import (
	"fmt"
	"strings"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

type pathCase struct {
	Base  string
	Joins []string
	Ext   string
}

func somePath(v vgen.T) string {
	s := v.Pick("", "", "", "/", "//", "./", "../")
	for i, n := 0, v.N(6); i < n; i++ {
		s += v.Pick("a", "b.c", "..", ".", "...", "..x", "é", "a b", "C", "漢", "x.y.z", "-", "~", "a:b", "@p") + v.Pick("/", "/", "/", "//", "")
	}
	return s
}

func TestV_C21(t *testing.T) {
	vh.Run(t, vh.Prop[pathCase]{
		Name: "path", Weight: 100,
		Gen: func(rt *rapid.T) pathCase {
			v := vgen.T{R: rt}
			c := pathCase{Base: somePath(v), Ext: v.Pick(".typ", ".png", ".tar", ".x-y", ".é")}
			for i, n := 0, v.N(4); i < n; i++ {
				c.Joins = append(c.Joins, somePath(v))
			}
			return c
		},
		Check: func(c pathCase, info *vh.Info) error {
			info.NonTrivial = strings.Contains(c.Base, "/") && len(c.Joins) > 0
			all := c.Base + strings.Join(c.Joins, "")
			info.Label(strings.Contains(all, ".."), "parent")
			got, want := syntax.NewVirtualPath(c.Base), clean(c.Base)
			for i := -1; i < len(c.Joins); i++ {
				what := fmt.Sprintf("%q", c.Base)
				if i >= 0 {
					what = fmt.Sprintf("%v joined with %q", got, c.Joins[i])
					before := *got
					next := got.Join(c.Joins[i])
					if *got != before {
						return fmt.Errorf("%v: the path changed to %v", what, got)
					}
					got, want = next, joined(want, c.Joins[i])
				}
				if got.Path != want || got.String() != want {
					return fmt.Errorf("%v is %q, not %q", what, got.Path, want)
				}
				if again := syntax.NewVirtualPath(got.Path); *again != *got {
					return fmt.Errorf("%v again is %v", got, again)
				}
				name := want[strings.LastIndex(want, "/")+1:]
				if name != "" && !strings.HasPrefix(name, ".") {
					ext, wantExt := got.WithExtension(c.Ext), extended(want, c.Ext)
					if ext.Path != wantExt {
						return fmt.Errorf("%v with the extension %v is %v", got, c.Ext, ext)
					}
					if got.Path != want {
						return fmt.Errorf("%v: the path changed to %v", want, got)
					}
				}
			}
			return nil
		},
	})
}

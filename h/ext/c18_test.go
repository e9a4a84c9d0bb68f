package ext

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

type boundCase struct {
	Version []uint32
	Bound   []uint32
}

func mkBound(xs []uint32) *syntax.VersionBound {
	b := &syntax.VersionBound{Major: xs[0]}
	if len(xs) > 1 {
		b.Minor = &xs[1]
	}
	if len(xs) > 2 {
		b.Patch = &xs[2]
	}
	return b
}

// near draws a number close to x.
func near(v vgen.T, x uint32) uint32 {
	switch v.W(4, 1, 1, 1) {
	case 0:
		return x
	case 1:
		return x + 1
	case 2:
		return x - 1
	default:
		return component(v)
	}
}

func TestV_C18(t *testing.T) {
	vh.Run(t, vh.Prop[boundCase]{
		Name: "match", Weight: 50,
		Gen: func(rt *rapid.T) boundCase {
			v := vgen.T{R: rt}
			c := boundCase{Version: []uint32{component(v), component(v), component(v)}}
			for i, n := 0, 1+v.N(3); i < n; i++ {
				c.Bound = append(c.Bound, near(v, c.Version[i]))
			}
			return c
		},
		Check: func(c boundCase, info *vh.Info) error {
			info.NonTrivial = c.Version[0] == c.Bound[0]
			version := syntax.PackageVersion{Major: c.Version[0], Minor: c.Version[1], Patch: c.Version[2]}
			// Elements which the bound does not have are ignored.
			cmp := slices.Compare(c.Version[:len(c.Bound)], c.Bound)
			info.Label(true, fmt.Sprintf("%d components, compares %d", len(c.Bound), cmp))
			b := mkBound(c.Bound)
			for _, m := range []struct {
				name      string
				got, want bool
			}{
				{"==", version.MatchesEQ(b), cmp == 0},
				{">", version.MatchesGT(b), cmp > 0},
				{"<", version.MatchesLT(b), cmp < 0},
				{">=", version.MatchesGE(b), cmp >= 0},
				{"<=", version.MatchesLE(b), cmp <= 0},
			} {
				if m.got != m.want {
					return fmt.Errorf("%v %v %v is %v", version, m.name, b, m.got)
				}
			}
			text := dotted(c.Bound...)
			if b.String() != text {
				return fmt.Errorf("the bound %v prints %q", c.Bound, b)
			}
			return nil
		},
	})
	vh.Run(t, vh.Prop[specCase]{
		Name: "parse", Weight: 25,
		Gen: func(rt *rapid.T) specCase {
			v := vgen.T{R: rt}
			xs := []uint32{component(v), component(v), component(v), component(v)}
			return specCase{damage(v, dotted(xs[:1+v.W(3, 3, 3, 1)]...), "0123456789.+- x_٣")}
		},
		Check: func(c specCase, info *vh.Info) error {
			xs, ok := modelVersion(c.Text, 1)
			info.NonTrivial = strings.Contains(c.Text, ".")
			info.Label(ok, "valid")
			b, err := syntax.ParseVersionBound(c.Text)
			var un syntax.VersionBound
			err2 := un.UnmarshalText([]byte(c.Text))
			if (err == nil) != ok || (err2 == nil) != ok {
				return fmt.Errorf("%q: %v, %v", c.Text, b, err)
			}
			if ok {
				want := dotted(xs...)
				if b.String() != want || un.String() != want {
					return fmt.Errorf("%q: %v, %v, not %v", c.Text, b, un.String(), want)
				}
			}
			return nil
		},
	})
	type validCase struct {
		Name, SpecName    string
		Version, SpecVers []uint32
		Compiler          []uint32
	}
	vh.Run(t, vh.Prop[validCase]{
		Name: "validate", Weight: 25,
		Gen: func(rt *rapid.T) validCase {
			v := vgen.T{R: rt}
			c := validCase{Name: word(v)}
			c.SpecName = c.Name
			if v.Chance(1, 4) {
				c.SpecName = v.Pick(c.Name+"x", strings.ToUpper(c.Name), "x", "-"+c.Name)
			}
			for i := 0; i < 3; i++ {
				x := component(v)
				c.Version = append(c.Version, x)
				if v.Chance(1, 12) {
					x = near(v, x)
				}
				c.SpecVers = append(c.SpecVers, x)
			}
			cur := syntax.CurrentCompilerVersion()
			if v.Chance(4, 5) {
				for _, x := range []uint32{cur.Major, cur.Minor, cur.Patch}[:1+v.N(3)] {
					c.Compiler = append(c.Compiler, near(v, x))
				}
			}
			return c
		},
		Check: func(c validCase, info *vh.Info) error {
			cur := syntax.CurrentCompilerVersion()
			pkg := syntax.NewPackageInfo(c.Name, syntax.PackageVersion{Major: c.Version[0], Minor: c.Version[1], Patch: c.Version[2]}, "lib.typ")
			if c.Compiler != nil {
				pkg.Compiler = mkBound(c.Compiler)
			}
			manifest := syntax.NewPackageManifest(pkg)
			spec := &syntax.PackageSpec{Namespace: "n", Name: c.SpecName, Version: syntax.PackageVersion{Major: c.SpecVers[0], Minor: c.SpecVers[1], Patch: c.SpecVers[2]}}
			want := c.Name == c.SpecName && slices.Equal(c.Version, c.SpecVers)
			info.NonTrivial = want && c.Compiler != nil
			if c.Compiler != nil {
				want = want && slices.Compare([]uint32{cur.Major, cur.Minor, cur.Patch}[:len(c.Compiler)], c.Compiler) >= 0
			}
			info.Label(want, "valid")
			if err := manifest.Validate(spec); (err == nil) != want {
				return fmt.Errorf("the manifest of %+v with compiler %v validates for %v: %v", pkg, c.Compiler, spec, err)
			}
			return nil
		},
	})
}

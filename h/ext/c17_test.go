package ext

import (
	"fmt"
	"strconv"
	"strings"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

type specCase struct {
	Text string
}

// component draws a number of a version.
func component(v vgen.T) uint32 {
	switch v.W(5, 2, 1, 1) {
	case 0:
		return uint32(v.N(12))
	case 1:
		return uint32(v.N(2000))
	case 2:
		return 1<<32 - 1 - uint32(v.N(3))
	default:
		return uint32(1) << v.N(32)
	}
}

func wordStart(r rune) bool {
	return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' || r == 'é' || r == '漢'
}

func isWord(s string) bool {
	for i, r := range s {
		if !wordStart(r) && (i == 0 || !(r >= '0' && r <= '9' || r == '-')) {
			return false
		}
	}
	return s != ""
}

func word(v vgen.T) string {
	s := string([]rune("abxzA_é漢")[v.N(8)])
	for i, n := 0, v.N(8); i < n; i++ {
		s += string([]rune("abcxyz019_-é漢")[v.N(13)])
	}
	return s
}

// u32 is the model of a version number's component.
func u32(s string) (uint32, bool) {
	var x uint64
	for _, r := range s {
		if r < '0' || r > '9' {
			return 0, false
		}
		x = x*10 + uint64(r-'0')
		if x > 1<<32-1 {
			return 0, false
		}
	}
	return uint32(x), s != ""
}

// modelVersion is the model of parsing a version of min to 3 components.
func modelVersion(s string, min int) ([]uint32, bool) {
	fs := strings.Split(s, ".")
	if len(fs) < min || len(fs) > 3 {
		return nil, false
	}
	var xs []uint32
	for _, f := range fs {
		x, ok := u32(f)
		if !ok {
			return nil, false
		}
		xs = append(xs, x)
	}
	return xs, true
}

// modelSpec is the model of parsing "@namespace/name".
func modelSpec(s string) (namespace, name, rest string, ok bool) {
	if !strings.HasPrefix(s, "@") {
		return
	}
	s = s[1:]
	i := strings.Index(s, "/")
	if i < 0 || !isWord(s[:i]) {
		return
	}
	namespace, s = s[:i], s[i+1:]
	name = s
	if i := strings.Index(s, ":"); i >= 0 {
		name, rest = s[:i], s[i:]
	}
	return namespace, name, rest, isWord(name)
}

func dotted(xs ...uint32) string {
	var fs []string
	for _, x := range xs {
		fs = append(fs, strconv.FormatUint(uint64(x), 10))
	}
	return strings.Join(fs, ".")
}

// damage makes a few edits from a small alphabet.
func damage(v vgen.T, s string, alphabet string) string {
	rs := []rune(s)
	al := []rune(alphabet)
	for i, n := 0, v.W(2, 4, 2, 1); i < n; i++ {
		k := v.N(len(rs) + 1)
		switch {
		case v.Chance(1, 2) || k == len(rs):
			rs = append(rs[:k], append([]rune{al[v.N(len(al))]}, rs[k:]...)...)
		case v.Chance(1, 2):
			rs = append(rs[:k], rs[k+1:]...)
		default:
			rs[k] = al[v.N(len(al))]
		}
	}
	return string(rs)
}

func TestV_C17(t *testing.T) {
	type valueCase struct {
		Namespace, Name     string
		Major, Minor, Patch uint32
	}
	vh.Run(t, vh.Prop[valueCase]{
		Name: "roundtrip", Weight: 40,
		Gen: func(rt *rapid.T) valueCase {
			v := vgen.T{R: rt}
			return valueCase{word(v), word(v), component(v), component(v), component(v)}
		},
		Check: func(c valueCase, info *vh.Info) error {
			info.NonTrivial = c.Major+c.Minor+c.Patch > 0
			version := syntax.PackageVersion{Major: c.Major, Minor: c.Minor, Patch: c.Patch}
			spec := &syntax.PackageSpec{Namespace: c.Namespace, Name: c.Name, Version: version}
			text := spec.String()
			if want := "@" + c.Namespace + "/" + c.Name + ":" + dotted(c.Major, c.Minor, c.Patch); text != want {
				return fmt.Errorf("prints %q, not %q", text, want)
			}
			got, err := syntax.ParsePackageSpec(text)
			if err != nil || *got != *spec {
				return fmt.Errorf("%q parses to %v, %v", text, got, err)
			}
			less := spec.Versionless()
			got2, err := syntax.ParseVersionlessPackageSpec(less.String())
			if err != nil || *got2 != *less || less.Namespace != c.Namespace || less.Name != c.Name {
				return fmt.Errorf("%q parses to %v, %v", less.String(), got2, err)
			}
			if at := less.At(version); *at != *spec {
				return fmt.Errorf("%v at %v is %v", less, version, at)
			}
			clone := spec.Clone()
			if *clone != *spec || clone == spec {
				return fmt.Errorf("the clone of %v is %v", spec, clone)
			}
			var un syntax.PackageVersion
			if err := un.UnmarshalText([]byte(version.String())); err != nil || un != version {
				return fmt.Errorf("%q unmarshals to %v, %v", version, un, err)
			}
			return nil
		},
	})
	vh.Run(t, vh.Prop[specCase]{
		Name: "parse", Weight: 60,
		Gen: func(rt *rapid.T) specCase {
			v := vgen.T{R: rt}
			s := "@" + word(v) + "/" + word(v) + ":" + dotted(component(v), component(v), component(v))
			if v.Chance(1, 4) {
				s = strings.Replace(s, ":", v.Pick("", ":0", ":00", ":1."), 1)
			}
			if v.Chance(1, 3) {
				s = s[:strings.LastIndexAny(s, ":@")]
			}
			return specCase{damage(v, s, "@/:.-+_ a1é漢0 \n9x%")}
		},
		Check: func(c specCase, info *vh.Info) error {
			info.NonTrivial = len(c.Text) > 4
			namespace, name, rest, ok := modelSpec(c.Text)
			info.Label(ok, "well-formed name")

			less, err := syntax.ParseVersionlessPackageSpec(c.Text)
			lessOK := ok && rest == ""
			info.Label(lessOK, "versionless")
			if (err == nil) != lessOK {
				return fmt.Errorf("versionless %q: %v, %v", c.Text, less, err)
			}
			if lessOK && (less.Namespace != namespace || less.Name != name || less.String() != c.Text) {
				return fmt.Errorf("versionless %q: %v", c.Text, less)
			}

			spec, err := syntax.ParsePackageSpec(c.Text)
			var xs []uint32
			if ok && rest != "" {
				xs, ok = modelVersion(rest[1:], 3)
			} else {
				ok = false
			}
			info.Label(ok, "specification")
			if (err == nil) != ok {
				return fmt.Errorf("%q: %v, %v", c.Text, spec, err)
			}
			if ok {
				want := syntax.PackageSpec{Namespace: namespace, Name: name, Version: syntax.PackageVersion{Major: xs[0], Minor: xs[1], Patch: xs[2]}}
				if *spec != want {
					return fmt.Errorf("%q: %v", c.Text, spec)
				}
			}
			// The version on its own.
			v := strings.TrimPrefix(rest, ":")
			xs, ok = modelVersion(v, 3)
			version, err := syntax.ParsePackageVersion(v)
			if (err == nil) != ok || ok && (version != syntax.PackageVersion{Major: xs[0], Minor: xs[1], Patch: xs[2]}) {
				return fmt.Errorf("version %q: %v, %v", v, version, err)
			}
			return nil
		},
	})
}

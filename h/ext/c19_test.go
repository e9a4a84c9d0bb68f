package ext

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

type manifestCase struct {
	Text string
	// What the manifest holds, or nil if it is malformed.
	Strings  map[string]string
	Lists    map[string][]string
	Version  []uint32
	Compiler []uint32
	Template map[string]string
	Bad      string
}

// tomlString writes a string in one of the forms of TOML.
func tomlString(v vgen.T, s string) string {
	basic := func(multi bool) string {
		out := &strings.Builder{}
		for _, r := range s {
			switch {
			case r == '\n' && multi:
				out.WriteRune(r)
			case r == '"' || r == '\\':
				out.WriteString("\\" + string(r))
			case r == '\n':
				out.WriteString("\\n")
			case r == '\t' && v.Chance(1, 2):
				out.WriteString("\\t")
			case r < ' ' && r != '\t' || r == 0x7f:
				fmt.Fprintf(out, "\\u%04X", r)
			case r > 0x7f && v.Chance(1, 4):
				fmt.Fprintf(out, "\\U%08x", r)
			default:
				out.WriteRune(r)
			}
		}
		return out.String()
	}
	plain := strings.IndexFunc(s, func(r rune) bool { return r < ' ' && r != '\t' && r != '\n' || r == 0x7f || r == '\'' }) < 0
	switch v.W(5, 2, 2, 1) {
	case 1:
		if plain && !strings.Contains(s, "\n") {
			return "'" + s + "'"
		}
	case 2:
		return `"""` + v.Pick("\n", "") + noFirstNewline(basic(true)) + `"""`
	case 3:
		if plain {
			return "'''\n" + s + "'''"
		}
	}
	return `"` + basic(false) + `"`
}

// noFirstNewline keeps a newline at the start, which TOML would trim.
func noFirstNewline(s string) string {
	if strings.HasPrefix(s, "\n") {
		return `\n` + s[1:]
	}
	return s
}

func manifestValue(v vgen.T) string {
	s := ""
	for i, n := 0, v.N(5); i < n; i++ {
		switch v.W(4, 2, 1) {
		case 0:
			s += v.Pick("a", "lib.typ", "src/", "A <a@b.c>", "MIT", " ", "é", "漢", "1", "#", "=", "]", "*", "!x", "https://x.y/z?q=1#f", "👩‍👩‍👧")
		case 1:
			s += v.Pick("\"", "'", "\\", "\n", "\t", "\\n", "\"\"\"", "''", "\x00", "\x7f")
		default:
			s += v.Char()
		}
	}
	return strings.ReplaceAll(s, "\r", "")
}

var (
	stringKeys = []string{"name", "entrypoint", "license", "description", "homepage", "repository"}
	listKeys   = []string{"authors", "keywords", "categories", "disciplines", "exclude"}
)

func manifestGen(rt *rapid.T) manifestCase {
	v := vgen.T{R: rt}
	c := manifestCase{Strings: map[string]string{}, Lists: map[string][]string{}}
	var fields []string
	key := func(k string) string {
		if v.Chance(1, 8) {
			return `"` + k + `"`
		}
		return k
	}
	eq := func(k, val string) string { return key(k) + v.Pick(" = ", "=", "\t=  ") + val }
	inline := v.Chance(1, 8)
	for _, k := range stringKeys {
		if k == "name" || k == "entrypoint" || v.Chance(1, 2) {
			c.Strings[k] = manifestValue(v)
			fields = append(fields, eq(k, tomlString(v, c.Strings[k])))
		}
	}
	for _, k := range listKeys {
		if v.Chance(1, 2) {
			xs := []string{}
			text := "["
			for i, n := 0, v.N(4); i < n; i++ {
				xs = append(xs, manifestValue(v))
				if i > 0 {
					text += ","
				}
				text += v.Pick("", " ", "\n  ", " # c\n") + tomlString(v, xs[i])
			}
			if len(xs) > 0 && v.Chance(1, 3) {
				text += ","
			}
			c.Lists[k] = xs
			fields = append(fields, eq(k, text+v.Pick("", " ", "\n")+"]"))
		}
	}
	c.Version = []uint32{component(v), component(v), component(v)}
	version := `"` + dotted(c.Version...) + `"`
	compiler := ""
	if v.Chance(1, 2) {
		c.Compiler = []uint32{component(v), component(v), component(v)}[:1+v.N(3)]
		compiler = `"` + dotted(c.Compiler...) + `"`
	}
	if v.Chance(1, 3) {
		c.Bad = v.Pick("version", "compiler", "type", "duplicate", "package", "syntax")
	}
	switch c.Bad {
	case "version":
		version = `"` + v.Pick("1.0", "1", "", "1.0.0.0", "1.x.0", "-1.0.0", "1.0.0-rc", "v1.0.0", "1.0.4294967296", "1..0", "1.0.", " 1.0.0", "1.0.0 ", "1. 0.0", "1.0.0\\n", "1.0.0x", "0x1.0.0", "1_0.0.0", "1,0,0", "1.0.0.", ".1.0.0", "one.0.0", "1e1.0.0") + `"`
	case "compiler":
		compiler = `"` + v.Pick("", "1.0.0.0", "x", "1.x", ">=1", "0.4294967296", "1.", ".1", " 0.12", "0.12 ", "0.1_2", "0x1.0", "^0.12", "0.12.x", "0..1") + `"`
	case "type":
		fields[0] = "name = " + v.Pick("1", "true", "[]", "{}", "1.5")
	case "duplicate":
		fields = append(fields, "name = 'again'")
	case "syntax":
		fields = append(fields, v.Pick("x = ", "x = \"", "= 1", "x = [1", "x y = 1", "x = {", "x = 'a\nb'"))
	}
	fields = append(fields, eq("version", version))
	if compiler != "" {
		fields = append(fields, eq("compiler", compiler))
	}
	if v.Chance(1, 4) {
		fields = append(fields, v.Pick("x-unknown = 1", "unknown = [1, 'a']", "other = { a = 1 }", "n.m = true"))
	}
	// The order of keys does not matter.
	for i := range fields {
		k := i + v.N(len(fields)-i)
		fields[i], fields[k] = fields[k], fields[i]
	}
	sections := []string{}
	body := strings.Join(fields, v.Pick("\n", "\n\n", " # comment\n"))
	head := ""
	switch {
	case c.Bad == "package":
		sections = append(sections, "[pakage]\n"+body+"\n")
	case inline && c.Bad == "" && !strings.Contains(body, "\n\n") && !strings.Contains(strings.Join(fields, ""), "\n") && !strings.Contains(body, "# comment"):
		head = "package = { " + strings.Join(fields, ", ") + " }\n"
	default:
		sections = append(sections, v.Pick("[package]", "[ package ]", "[package] # c", "[\"package\"]")+"\n"+body+"\n")
	}
	if v.Chance(1, 3) {
		c.Template = map[string]string{"path": manifestValue(v), "entrypoint": manifestValue(v)}
		text := "[template]\n"
		if v.Chance(1, 2) {
			c.Template["thumbnail"] = manifestValue(v)
			text += eq("thumbnail", tomlString(v, c.Template["thumbnail"])) + "\n"
		}
		text += eq("path", tomlString(v, c.Template["path"])) + "\n" + eq("entrypoint", tomlString(v, c.Template["entrypoint"])) + "\n"
		if v.Chance(1, 2) {
			sections = append(sections, text)
		} else {
			sections = append([]string{text}, sections...)
		}
	}
	if v.Chance(1, 3) {
		sections = append(sections, v.Pick("[tool.x]\na = 'b'\n", "[unknown]\nname = 'z'\n", "[package2]\nname = 1\n", "[tool]\n"))
	}
	c.Text = head + v.Pick("", "# c\n", "\n") + strings.Join(sections, "\n")
	return c
}

func TestV_C19(t *testing.T) {
	vh.Run(t, vh.Prop[manifestCase]{
		Name: "manifest", Weight: 100,
		Gen: manifestGen,
		Check: func(c manifestCase, info *vh.Info) error {
			info.NonTrivial = len(c.Text) > 60
			info.Label(c.Bad != "", "bad "+c.Bad)
			info.Label(c.Bad == "", "good")
			info.Label(c.Template != nil, "template")
			m, err := syntax.ParsePackageManifestFromToml(c.Text)
			if c.Bad != "" {
				if err == nil {
					return fmt.Errorf("a manifest with a bad %v is taken:\n%v", c.Bad, c.Text)
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("%v:\n%v", err, c.Text)
			}
			p := m.Pkg
			for k, got := range map[string]string{"name": p.Name, "entrypoint": p.Entrypoint, "license": p.License, "description": p.Description, "homepage": p.Homepage, "repository": p.Repository} {
				if got != c.Strings[k] {
					return fmt.Errorf("%v is %q, not %q:\n%v", k, got, c.Strings[k], c.Text)
				}
			}
			for k, got := range map[string][]string{"authors": p.Authors, "keywords": p.Keywords, "categories": p.Categories, "disciplines": p.Disciplines, "exclude": p.Exclude} {
				if len(got) != len(c.Lists[k]) || len(got) > 0 && !reflect.DeepEqual(got, c.Lists[k]) {
					return fmt.Errorf("%v is %q, not %q:\n%v", k, got, c.Lists[k], c.Text)
				}
			}
			if p.Version.String() != dotted(c.Version...) {
				return fmt.Errorf("the version is %v:\n%v", p.Version, c.Text)
			}
			if (p.Compiler != nil) != (c.Compiler != nil) || p.Compiler != nil && p.Compiler.String() != dotted(c.Compiler...) {
				return fmt.Errorf("the compiler is %v:\n%v", p.Compiler, c.Text)
			}
			if (m.Template != nil) != (c.Template != nil) {
				return fmt.Errorf("the template is %v:\n%v", m.Template, c.Text)
			}
			if tm := m.Template; tm != nil && (tm.Path != c.Template["path"] || tm.Entrypoint != c.Template["entrypoint"] || tm.Thumbnail != c.Template["thumbnail"]) {
				return fmt.Errorf("the template is %+v, not %v:\n%v", *tm, c.Template, c.Text)
			}
			return nil
		},
	})
}

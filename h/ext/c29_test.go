package ext

import (
	"fmt"
	"maps"
	"path"
	"path/filepath"
	"strings"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

type offlineCase struct {
	P    project
	Gone string // a source file or resource which is taken away, or ""
	Lib  lost
	Bad  string // a source file which is not UTF-8, or ""
}

// exists reports whether a tree has a file.
func (t tree) exists(name string) bool {
	_, typ := t.Typ[name]
	_, data := t.Data[name]
	return typ || data
}

// offline adds the files of a tree, as they must be written, to a set.
func (p project) offline(t tree, lib string, want map[string]string) (resources int) {
	for _, f := range t.reach() {
		out := ""
		spec := ""
		for _, x := range t.Typ[f] {
			if x.K == "as" && spec != "" {
				l, _, _ := p.find(spec)
				out += " as " + l.Name
				spec = ""
			}
			src := x.T
			switch {
			case x.K == "import" && strings.HasPrefix(x.V, "@"):
				l, r, _ := p.find(x.V)
				spec = x.V
				src = quote("/libs/" + l.Name + "/" + r.V.String() + "/" + r.Tree.Main)
			case x.K == "import":
				spec = ""
				fallthrough
			case x.K == "include":
				if lib != "" && strings.HasPrefix(x.V, "/") {
					src = quote("/" + lib + x.V)
				}
			case x.K == "res" || x.K == "style":
				to := resolve(f, x.V)
				if !t.exists(to) {
					break
				}
				resources++
				want[path.Join(lib, to)] = string(t.Data[to])
				if lib != "" && strings.HasPrefix(x.V, "/") {
					src = quote("/" + lib + x.V)
				}
			}
			out += src
		}
		want[path.Join(lib, f)] = out
	}
	return resources
}

func TestV_C29(t *testing.T) {
	vh.Run(t, vh.Prop[offlineCase]{
		Name: "offline-typ", Weight: 100,
		Gen: func(rt *rapid.T) offlineCase {
			v := vgen.T{R: rt}
			c := offlineCase{P: genProject(v, false, true)}
			if v.Chance(1, 10) {
				var names []string
				for _, f := range c.P.Tree.reach() {
					if f != c.P.Tree.Main {
						names = append(names, f)
					}
					for _, x := range c.P.Tree.Typ[f] {
						if x.K == "res" {
							names = append(names, resolve(f, x.V))
						}
					}
				}
				if len(names) > 0 {
					c.Gone = names[v.N(len(names))]
				}
			}
			if r := c.P.Tree.reach(); c.Gone == "" && v.Chance(1, 20) {
				c.Bad = r[v.N(len(r))]
			} else if c.Gone == "" && v.Chance(1, 20) {
				c.Lib = c.P.lose(v, c.P.used(c.P.Tree.specs(), func(string) bool { return true }))
			}
			return c
		},
		Check: func(c offlineCase, info *vh.Info) error {
			p := c.P
			p.Tree.Typ, p.Tree.Data = maps.Clone(p.Tree.Typ), maps.Clone(p.Tree.Data)
			delete(p.Tree.Typ, c.Gone)
			delete(p.Tree.Data, c.Gone)
			if c.Bad != "" {
				text := ""
				for _, x := range p.Tree.Typ[c.Bad] {
					text += x.T
				}
				p.Tree.Typ[c.Bad] = []piece{{T: binary(text)}}
			}
			if c.Lib.Spec != "" {
				p = p.without(c.Lib)
			}
			dir, done := caseDir()
			defer done()
			s := p.write(dir)
			hand(dir)
			want := snapshot(s.out)
			o, err := command("offline-typ", s.cwd, s.env, s.args...)
			if err != nil {
				return err
			}
			if err := s.check(p); err != nil {
				return err
			}
			info.Label(c.Gone != "", "a file is missing")
			if c.Gone != "" {
				if o.code == 0 {
					return fmt.Errorf("the file %q is missing, and the command ends well", c.Gone)
				}
				return nil
			}
			info.Label(c.Lib.Spec != "" && !c.Lib.Bad, "a file of a package is missing")
			info.Label(c.Lib.Bad, "a file of a package is not UTF-8")
			if c.Lib.Spec != "" {
				if o.code == 0 {
					return fmt.Errorf("the file %q of %v is missing or not UTF-8, and the command ends well", c.Lib.File, c.Lib.Spec)
				}
				return nil
			}
			info.Label(c.Bad != "", "a file is not UTF-8")
			if c.Bad != "" {
				if o.code == 0 {
					return fmt.Errorf("the file %q is not UTF-8, and the command ends well", c.Bad)
				}
				return nil
			}
			if o.code != 0 {
				return fmt.Errorf("exit code %v: %v", o.code, o.err)
			}
			// What must be written.
			maps.Copy(want, dataFiles(p.Fonts))
			resources := p.offline(p.Tree, "", want)
			used := map[string]bool{}
			todo := p.Tree.specs()
			for len(todo) > 0 {
				spec := todo[0]
				todo = todo[1:]
				if used[spec] {
					continue
				}
				used[spec] = true
				l, r, _ := p.find(spec)
				resources += p.offline(r.Tree, "libs/"+l.Name+"/"+r.V.String(), want)
				todo = append(todo, r.Tree.specs()...)
			}
			info.NonTrivial = len(used) > 0 || resources > 0
			info.Label(len(used) > 0, "packages")
			info.Label(len(used) > 1, "several packages")
			info.Label(resources > 0, "resources")
			info.Label(len(p.Fonts) > 0, "fonts")
			got := snapshot(s.out)
			if err := sameFiles("output", got, want); err != nil {
				return fmt.Errorf("%v\n%v", err, o.err)
			}
			// What was written needs nothing else: as Typst resolves them, all
			// imports lead to files of the output.
			for name, text := range got {
				if path.Ext(name) != ".typ" {
					continue
				}
				if err := closed(got, name, text); err != nil {
					return err
				}
			}
			return nil
		},
	})
}

// closed checks that the imports of a file lead to files.
func closed(files map[string]string, name, text string) error {
	var walk func(n *syntax.SyntaxNode) error
	walk = func(n *syntax.SyntaxNode) error {
		inner, ok := n.Repr.(*syntax.InnerNode)
		if !ok {
			return nil
		}
		if k := inner.Kind; k == syntax.SyntaxKindModuleImport || k == syntax.SyntaxKindModuleInclude {
			for _, c := range inner.Children {
				leaf, ok := c.Repr.(*syntax.LeafNode)
				if !ok || leaf.Kind != syntax.SyntaxKindStr {
					continue
				}
				ref := syntax.UnquoteStr(leaf.Text)
				if _, ok := files[filepath.Clean(resolve(name, ref))]; !ok {
					return fmt.Errorf("%q refers to %q, which was not written", name, ref)
				}
			}
		}
		for _, c := range inner.Children {
			if err := walk(c); err != nil {
				return err
			}
		}
		return nil
	}
	return walk(syntax.Parse(text))
}

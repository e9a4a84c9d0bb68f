package ext

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

type printCase struct {
	Texts   []string
	Names   []string // a file may be named several times
	Missing int      // number of the argument which cannot be read, or len(Names) or more
	Fault   string   // "missing", "unreadable", "directory" or "binary"
	Cwd     bool     // names are relative
}

// outline prints a tree, one node per line, indented by depth.
func outline(out *strings.Builder, n *syntax.SyntaxNode, depth int) {
	out.WriteString(strings.Repeat("  ", depth))
	switch n := n.Repr.(type) {
	case *syntax.LeafNode:
		fmt.Fprintf(out, "leaf (kind=%v) text=%v\n", strconv.Quote(n.Kind.Name()), strconv.Quote(n.Text))
	case *syntax.InnerNode:
		fmt.Fprintf(out, "inner (kind=%v)\n", strconv.Quote(n.Kind.Name()))
		for _, c := range n.Children {
			outline(out, c, depth+1)
		}
	case *syntax.ErrorNode:
		fmt.Fprintf(out, "error (text=%v) error=%v\n", strconv.Quote(n.Text), strconv.Quote(n.Error.Message))
	}
}

func TestV_C27(t *testing.T) {
	vh.Run(t, vh.Prop[printCase]{
		Name: "parse-typ", Weight: 100,
		Gen: func(rt *rapid.T) printCase {
			v := vgen.T{R: rt}
			c := printCase{}
			for i, n := 0, 1+v.N(3); i < n; i++ {
				c.Texts = append(c.Texts, v.Text())
				c.Names = append(c.Names, v.Pick("", "", "", "d/", "é ")+fmt.Sprint("f", i)+v.Pick(".typ", ".typ", "", ".md", ".toml"))
			}
			for range len(c.Texts) {
				if v.Chance(1, 6) {
					c.Names = append(c.Names, c.Names[v.N(len(c.Texts))])
					c.Texts = append(c.Texts, c.Texts[slices.Index(c.Names, c.Names[len(c.Names)-1])])
				}
			}
			c.Missing = v.N(10)
			if c.Missing < len(c.Names) {
				c.Missing = slices.Index(c.Names, c.Names[c.Missing])
			}
			c.Fault = v.Pick("missing", "missing", "unreadable", "directory", "binary", "binary")
			c.Cwd = v.Chance(1, 3)
			return c
		},
		Check: func(c printCase, info *vh.Info) error {
			dir, done := caseDir()
			defer done()
			files := map[string]string{}
			var args []string
			want := &strings.Builder{}
			source := ""
			for i, text := range c.Texts {
				name := c.Names[i]
				if c.Cwd {
					args = append(args, name)
				} else {
					args = append(args, filepath.Join(dir, name))
				}
				if c.Missing >= len(c.Names) || name != c.Names[c.Missing] {
					files[name] = text
				}
				if i < c.Missing {
					outline(want, syntax.Parse(text), 0)
					source += text
				}
			}
			put(dir, files)
			restore := func() {}
			if c.Missing < len(c.Names) {
				bad := filepath.Join(dir, c.Names[c.Missing])
				switch c.Fault {
				case "unreadable":
					if asRoot {
						break
					}
					put(dir, map[string]string{c.Names[c.Missing]: "secret"})
					files[c.Names[c.Missing]] = "secret"
					if err := os.Chmod(bad, 0); err != nil {
						panic(err)
					}
					restore = func() { os.Chmod(bad, 0o600) }
				case "directory":
					put(bad, nil)
				case "binary":
					// Text is UTF-8.
					files[c.Names[c.Missing]] = binary(c.Texts[c.Missing])
					put(dir, map[string]string{c.Names[c.Missing]: files[c.Names[c.Missing]]})
				}
			}
			o, err := command("parse-typ", dir, nil, args...)
			restore()
			if err != nil {
				return err
			}
			if asRoot && c.Fault == "unreadable" && c.Missing < len(c.Names) {
				if _, ok := files[c.Names[c.Missing]]; ok {
					return nil // it was readable after all
				}
			}
			fails := c.Missing < len(c.Names)
			info.NonTrivial = len(source) > 8
			info.Label(fails, c.Fault)
			info.Label(len(args) > 1, "several files")
			if (o.code != 0) != fails {
				return fmt.Errorf("exit code %v\n%v", o.code, o.err)
			}
			if fails && !strings.Contains(o.err, args[c.Missing]) {
				return fmt.Errorf("the file %v is not named: %v", args[c.Missing], o.err)
			}
			if o.out != want.String() {
				return fmt.Errorf("printed\n%v\nnot\n%v", o.out, want)
			}
			// The lines hold the source.
			got := ""
			for _, l := range strings.Split(strings.TrimSuffix(o.out, "\n"), "\n") {
				i := strings.Index(l, "text=")
				if i < 0 {
					continue
				}
				q, err := strconv.QuotedPrefix(l[i+len("text="):])
				if err != nil {
					return fmt.Errorf("line %q: %v", l, err)
				}
				s, _ := strconv.Unquote(q)
				got += s
			}
			if got != source {
				return fmt.Errorf("the lines hold %q, not %q", got, source)
			}
			if err := sameFiles("input", snapshot(dir), files); err != nil {
				return err
			}
			return nil
		},
	})
}

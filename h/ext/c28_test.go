package ext

import (
	"fmt"
	"maps"
	"regexp"
	"strings"
	"testing"

	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

type updateCase struct {
	P    project
	Gone string // a file which is taken away, or ""
	Lib  lost
	Bad  bool // instead of being taken away, it is not UTF-8
}

// newest is the newest version of a package, if it is newer than the given.
func (p project) newest(spec string) (string, bool) {
	l, r, _ := p.find(spec)
	best := r.V
	for _, s := range l.Releases {
		if best.less(s.V) && (s.Store || p.Universe != "") {
			best = s.V
		}
	}
	return l.spec(best), best != r.V
}

// sure is the packages which are looked into: they are not updated.
func (p project) sure() map[string]bool {
	return p.used(p.Tree.specs(), func(spec string) bool {
		_, old := p.newest(spec)
		return !old
	})
}

// installed reports whether a package is found.
func (p project) installed(spec string) bool {
	_, r, ok := p.find(spec)
	return ok && (r.Store || r.Universe && p.Universe != "")
}

var specPattern = regexp.MustCompile(`@[a-z]+/[a-z0-9-]+:[0-9]+\.[0-9]+\.[0-9]+`)

func TestV_C28(t *testing.T) {
	vh.Run(t, vh.Prop[updateCase]{
		Name: "update-typ", Weight: 100,
		Gen: func(rt *rapid.T) updateCase {
			v := vgen.T{R: rt}
			c := updateCase{P: genProject(v, true, false)}
			if v.Chance(1, 12) {
				r := c.P.Tree.reach()
				c.Bad = v.Chance(1, 3)
				if f := r[v.N(len(r))]; c.Bad || f != c.P.Tree.Main {
					c.Gone = f
				}
			} else if v.Chance(1, 12) {
				used := c.P.sure()
				maps.DeleteFunc(used, func(spec string, _ bool) bool { return !c.P.installed(spec) })
				c.Lib = c.P.lose(v, used)
			}
			return c
		},
		Check: func(c updateCase, info *vh.Info) error {
			p := c.P
			if c.Gone != "" {
				p.Tree.Typ = p.Tree.without(c.Gone, c.Bad)
			}
			whole := p
			if c.Lib.Spec != "" {
				p = p.without(c.Lib)
			}
			dir, done := caseDir()
			defer done()
			s := p.write(dir)
			hand(dir)
			before := snapshot(s.out)
			p = whole
			o, err := command("update-typ", s.cwd, s.env, s.args...)
			if err != nil {
				return err
			}
			fails := c.Gone != ""
			// What must be written.
			want := maps.Clone(before)
			replaced, used := 0, map[string]bool{}
			var reports []string           // what must be reported
			mentioned := map[string]bool{} // what may be reported
			for _, f := range p.Tree.reach() {
				out := ""
				for _, x := range p.Tree.Typ[f] {
					if x.K == "import" && strings.HasPrefix(x.V, "@") {
						used[x.V] = true
						if n, ok := p.newest(x.V); ok {
							out += quote(n)
							replaced++
							reports = append(reports, n)
							mentioned[x.V], mentioned[n] = true, true
							continue
						}
					}
					out += x.T
				}
				want[f] = out
			}
			// Which packages are used: current ones must be looked into.
			libs := 0
			uninstalled := false
			for changed := true; changed; {
				changed = false
				for spec := range used {
					if !p.installed(spec) {
						uninstalled = true
						continue
					}
					_, r, _ := p.find(spec)
					for _, x := range r.Tree.specs() {
						if !used[x] {
							used[x] = true
							changed = true
						}
					}
				}
			}
			// Whether there are packages to be looked into which are outdated: of
			// those used, and of what they may be updated to.
			outdated, seen := false, map[string]bool{}
			for todo := p.Tree.specs(); len(todo) > 0; {
				spec := todo[0]
				todo = todo[1:]
				if seen[spec] {
					continue
				}
				seen[spec] = true
				if n, old := p.newest(spec); old {
					todo = append(todo, n)
				}
				_, r, _ := p.find(spec)
				for _, x := range r.Tree.specs() {
					if _, old := p.newest(x); old {
						outdated = true
					}
					todo = append(todo, x)
				}
			}
			needed := false
			sure := p.sure()
			for spec := range used {
				_, r, _ := p.find(spec)
				for _, x := range r.Tree.specs() {
					if n, old := p.newest(x); old {
						mentioned[spec], mentioned[x], mentioned[n] = true, true, true
						libs++
						if sure[spec] {
							needed = true
							reports = append(reports, spec, n)
						}
					}
				}
			}
			info.NonTrivial = replaced > 0
			info.Label(replaced > 1, "several imports updated")
			info.Label(libs > 0, "outdated import in a package")
			info.Label(len(p.Tree.reach()) > 2, "several files")
			info.Label(p.InPlace, "in place")
			info.Label(fails && !c.Bad, "a file is missing")
			info.Label(c.Bad, "a file is not UTF-8")
			info.Label(c.Lib.Spec != "" && !c.Lib.Bad, "a file of a package is missing")
			info.Label(c.Lib.Bad, "a file of a package is not UTF-8")
			info.Label(uninstalled, "a package is not installed")
			info.Label(p.Universe != "", "universe")
			if err := s.check(p); err != nil {
				return err
			}
			if fails {
				if o.code == 0 {
					return fmt.Errorf("the file %q is missing or not UTF-8, and the command ends well", c.Gone)
				}
				return nil
			}
			if c.Lib.Spec != "" {
				if o.code == 0 {
					return fmt.Errorf("the file %q of %v is missing or not UTF-8, and the command ends well", c.Lib.File, c.Lib.Spec)
				}
				return nil
			}
			if err := sameFiles("output", snapshot(s.out), want); err != nil {
				return fmt.Errorf("%v\n%v", err, o.err)
			}
			if uninstalled {
				return nil
			}
			if o.code != 0 {
				return fmt.Errorf("exit code %v: %v", o.code, o.err)
			}
			for _, r := range reports {
				if !strings.Contains(o.err, r) {
					return fmt.Errorf("%v is not reported:\n%v", r, o.err)
				}
			}
			if said := strings.Contains(o.err, "updated project"); said != (replaced > 0) {
				return fmt.Errorf("%d imports were updated, and that is what it says:\n%v", replaced, o.err)
			}
			if said := strings.Contains(o.err, "transitive dependencies"); needed && !said || said && !outdated {
				return fmt.Errorf("transitive dependencies need an update: %v, and that is what it says:\n%v", needed, o.err)
			}
			if !p.Verbose {
				for _, m := range specPattern.FindAllString(o.err, -1) {
					if !mentioned[m] {
						return fmt.Errorf("%v is reported, for no reason:\n%v", m, o.err)
					}
				}
			}
			return nil
		},
	})
}

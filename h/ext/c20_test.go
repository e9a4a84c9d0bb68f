package ext

import (
	"fmt"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/mewmew/typast/internal/option"
	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

// fileOp is an operation on file IDs.
type fileOp struct {
	Op   string // new, join, ext, fake
	Pkg  int    // package number, or 0.
	Path string
	On   int // number of an earlier operation.
	Ext  string
}

type fileCase struct{ Threads [][]fileOp }

// clean resolves a path from the root.
func clean(path string) string {
	var out []string
	for _, s := range strings.Split(path, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return "/" + strings.Join(out, "/")
}

func joined(base, path string) string {
	if strings.HasPrefix(path, "/") {
		return clean(path)
	}
	return clean(base[:strings.LastIndex(base, "/")+1] + path)
}

func extended(path, ext string) string {
	dir, name := path[:strings.LastIndex(path, "/")+1], path[strings.LastIndex(path, "/")+1:]
	if i := strings.LastIndex(name, "."); i > 0 {
		name = name[:i]
	}
	return dir + name + ext
}

// pkg is a package by number. Equal packages are different pointers.
func pkg(i int) option.Option[*syntax.PackageSpec] {
	if i == 0 {
		return option.None[*syntax.PackageSpec]()
	}
	return option.Some(&syntax.PackageSpec{Namespace: "ns" + strconv.Itoa(i%2), Name: "p" + strconv.Itoa(i%3), Version: syntax.PackageVersion{Major: uint32(i % 5), Patch: 1}})
}

type fileModel struct{ pkg, path string }

func pkgName(i int) string {
	if p, ok := pkg(i).Get(); ok {
		return p.String()
	}
	return ""
}

var (
	filesMu   sync.Mutex
	fileIDs   = map[fileModel]syntax.FileID{}
	fileKeys  = map[syntax.FileID]fileModel{}
	fakeIDs   = map[syntax.FileID]bool{}
	fakesLeft = 20000
)

// seen checks an ID against all others of this process.
func seen(id syntax.FileID, key fileModel, fake bool) error {
	filesMu.Lock()
	defer filesMu.Unlock()
	if id == 0 {
		return fmt.Errorf("the ID of %v is zero", key)
	}
	if fake {
		if _, ok := fileKeys[id]; ok || fakeIDs[id] {
			return fmt.Errorf("the fake ID %d of %v is not unique", id, key)
		}
		fakeIDs[id] = true
		return nil
	}
	if other, ok := fileIDs[key]; ok && other != id {
		return fmt.Errorf("%v has the IDs %d and %d", key, other, id)
	}
	if other, ok := fileKeys[id]; ok && other != key {
		return fmt.Errorf("%v and %v have the ID %d", key, other, id)
	}
	if fakeIDs[id] {
		return fmt.Errorf("%v has the ID %d of a fake file", key, id)
	}
	fileIDs[key], fileKeys[id] = id, key
	return nil
}

func checkFile(id syntax.FileID, key fileModel) error {
	name := ""
	if p, ok := id.Spec().Get(); ok {
		name = p.String()
	}
	if got := (fileModel{name, id.VPath().Path}); got != key {
		return fmt.Errorf("file %d is %v, not %v", id, got, key)
	}
	if id.String() != key.pkg+key.path {
		return fmt.Errorf("file %d prints %q", id, id)
	}
	if syntax.FileIDFromUint16(id.Uint16()) != id {
		return fmt.Errorf("file %d is not its number", id)
	}
	return nil
}

func runFiles(ops []fileOp) error {
	type made struct {
		id  syntax.FileID
		key fileModel
		pkg int
	}
	var all []made
	for _, op := range ops {
		var m made
		fake := false
		switch {
		case op.Op == "new" || len(all) == 0:
			m = made{syntax.NewFileID(pkg(op.Pkg), syntax.NewVirtualPath(op.Path)), fileModel{pkgName(op.Pkg), clean(op.Path)}, op.Pkg}
		case op.Op == "join":
			on := all[op.On%len(all)]
			m = made{on.id.Join(op.Path), fileModel{on.key.pkg, joined(on.key.path, op.Path)}, on.pkg}
		case op.Op == "ext":
			on := all[op.On%len(all)]
			if on.key.path == "/" {
				continue
			}
			m = made{on.id.WithExtension(op.Ext), fileModel{on.key.pkg, extended(on.key.path, op.Ext)}, on.pkg}
		case op.Op == "fake":
			filesMu.Lock()
			fakesLeft--
			left := fakesLeft
			filesMu.Unlock()
			if left < 0 {
				continue
			}
			m = made{syntax.NewFakeFileID(syntax.NewVirtualPath(op.Path)), fileModel{"", clean(op.Path)}, 0}
			fake = true
		}
		if err := seen(m.id, m.key, fake); err != nil {
			return err
		}
		all = append(all, m)
	}
	for _, m := range all {
		if err := checkFile(m.id, m.key); err != nil {
			return err
		}
	}
	return nil
}

func fileOps(v vgen.T, max int) []fileOp {
	path := func() string {
		s := v.Pick("", "", "/", "./", "../")
		for i, n := 0, v.N(3); i < n; i++ {
			s += v.Pick("a", "b", "..", ".", "c.typ", "a.b") + v.Pick("/", "/", "//")
		}
		return s + v.Pick("x.typ", "y", "z.png", "a.typ")
	}
	var ops []fileOp
	for i, n := 0, 1+v.N(max); i < n; i++ {
		ops = append(ops, fileOp{[]string{"new", "new", "join", "ext", "fake"}[v.W(4, 4, 3, 2, 1)], v.N(7), path(), v.N(20), v.Pick(".z", ".z", "", ".tar.gz", ".typ")})
	}
	return ops
}

func TestV_C20(t *testing.T) {
	check := func(c fileCase, info *vh.Info) error {
		n := 0
		for _, ops := range c.Threads {
			n += len(ops)
		}
		info.NonTrivial = n > 3
		info.Label(len(c.Threads) > 1, "concurrent")
		errs := make([]error, len(c.Threads))
		start := make(chan bool)
		var wg sync.WaitGroup
		for i, ops := range c.Threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				errs[i] = vh.Guard(func() error { return runFiles(ops) })
			}()
		}
		close(start)
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		return nil
	}
	vh.Run(t, vh.Prop[fileCase]{
		Name: "sequence", Weight: 50,
		Gen:   func(rt *rapid.T) fileCase { return fileCase{[][]fileOp{fileOps(vgen.T{R: rt}, 16)}} },
		Check: check,
	})
	vh.Run(t, vh.Prop[fileCase]{
		Name: "concurrent", Weight: 50,
		Gen: func(rt *rapid.T) fileCase {
			v := vgen.T{R: rt}
			c := fileCase{}
			for i, n := 0, 2+v.N(7); i < n; i++ {
				if i > 0 && v.Chance(1, 3) {
					// The same files at the same time.
					c.Threads = append(c.Threads, c.Threads[0])
				} else {
					c.Threads = append(c.Threads, fileOps(v, 10))
				}
			}
			return c
		},
		Check: check,
	})
	// There are 65535 IDs. What comes after is refused, not given out again.
	var failed error
	vh.Run(t, vh.Prop[int]{
		Name: "full", Weight: 1,
		Gen: func(rt *rapid.T) int { return vgen.T{R: rt}.N(1000) },
		Check: func(c int, info *vh.Info) (err error) {
			info.NonTrivial = true
			if failed != nil {
				// The table of files is spoiled.
				return failed
			}
			defer func() { failed = err }()
			refused := func(i int) (refused bool, err error) {
				defer func() { refused = recover() != nil }()
				path := fmt.Sprintf("/full/%d/%d", c, i)
				id := syntax.NewFileID(pkg(0), syntax.NewVirtualPath(path))
				return false, seen(id, fileModel{"", path}, false)
			}
			for i := 0; i <= 1<<16; i++ {
				ok, err := refused(i)
				if err != nil {
					return err
				}
				if ok {
					break
				}
				if i == 1<<16 {
					return fmt.Errorf("more than 65535 files have an ID")
				}
			}
			if n := len(fileIDs) + len(fakeIDs); n != 1<<16-1 {
				return fmt.Errorf("%d files have an ID", n)
			}
			for id, key := range fileKeys {
				if err := checkFile(id, key); err != nil {
					return err
				}
				if again := syntax.NewFileID(id.Spec(), id.VPath()); again != id {
					return fmt.Errorf("file %d is now %d", id, again)
				}
			}
			return nil
		},
	})
}

package ext

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unicode/utf8"
)

// A command runs as a user who can write nowhere but below the scratch directory
// of the case: the commands write files, and a wrong one may write elsewhere.
const nobody = 65534

var (
	workOnce sync.Once
	workDir  string
)

// work is a directory which anybody may write to, below the scratch directory of the check.
func work() string {
	workOnce.Do(func() {
		base := os.Getenv("VERIF_WORK")
		if base == "" {
			base = os.TempDir()
		}
		dir, err := os.MkdirTemp(base, "work")
		if err != nil {
			panic(err)
		}
		if err := os.Chmod(dir, 0o755); err != nil {
			panic(err)
		}
		workDir = dir
	})
	return workDir
}

// caseDir makes an empty directory for a case. It is removed by the function.
func caseDir() (string, func()) {
	dir, err := os.MkdirTemp(work(), "c")
	if err != nil {
		panic(err)
	}
	if err := os.Chmod(dir, 0o755); err != nil {
		panic(err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

// put writes files below a directory.
func put(dir string, files map[string]string) {
	for name, content := range files {
		path := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(path), 0o777); err != nil {
			panic(err)
		}
		if err := os.WriteFile(path, []byte(content), 0o666); err != nil {
			panic(err)
		}
	}
	if err := os.MkdirAll(dir, 0o777); err != nil {
		panic(err)
	}
}

// binary makes something that is not UTF-8 out of a text. What is added depends
// on the text.
func binary(text string) string {
	i := len(text) / 2
	for !utf8.RuneStart((text + "a")[i]) {
		i--
	}
	return text[:i] + []string{"\xff", "$\x80$", "\xc3", "\xed\xa0\x80", "\xe2\x82 "}[len(text)%5] + text[i:]
}

// link makes a symbolic link to a new directory.
func link(dir, name string) {
	put(dir, nil)
	put(filepath.Dir(name), nil)
	if err := os.Symlink(dir, name); err != nil {
		panic(err)
	}
}

// hand gives a directory and all in it to the user who runs the commands.
func hand(dir string) {
	err := filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		return os.Lchown(path, nobody, nobody)
	})
	if errors.Is(err, syscall.EPERM) {
		asRoot = true // no other user can be had
	} else if err != nil {
		panic(err)
	}
}

// snapshot reads all files below a directory.
func snapshot(dir string) map[string]string {
	files := map[string]string{}
	filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(dir, path)
		if d.Type()&fs.ModeSymlink != 0 {
			to, _ := os.Readlink(path)
			files[rel] = "-> " + to
			return nil
		}
		buf, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		files[rel] = string(buf)
		return nil
	})
	return files
}

// sameFiles compares two sets of files.
func sameFiles(what string, got, want map[string]string) error {
	names := map[string]bool{}
	for n := range got {
		names[n] = true
	}
	for n := range want {
		names[n] = true
	}
	var sorted []string
	for n := range names {
		sorted = append(sorted, n)
	}
	slices.Sort(sorted)
	for _, n := range sorted {
		g, ok := got[n]
		if !ok {
			return fmt.Errorf("%v: the file %q is missing", what, n)
		}
		w, ok := want[n]
		if !ok {
			return fmt.Errorf("%v: unexpected file %q", what, n)
		}
		if g != w {
			return fmt.Errorf("%v: the file %q holds\n%q\nnot\n%q", what, n, g, w)
		}
	}
	return nil
}

type output struct {
	out, err string
	code     int
}

var asRoot bool

// command runs a command of the repository.
func command(name, dir string, env []string, args ...string) (output, error) {
	for {
		ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_BIN"), name), args...)
		var out, err bytes.Buffer
		cmd.Dir, cmd.Env, cmd.Stdout, cmd.Stderr = dir, append(env, "PATH=/usr/bin:/bin", "GOMAXPROCS=1", "GOTRACEBACK=single"), &out, &err
		if !asRoot {
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: true}}
		}
		e := cmd.Run()
		if errors.Is(e, syscall.EPERM) && !asRoot {
			asRoot = true // no other user can be had
			continue
		}
		if ctx.Err() != nil {
			return output{}, fmt.Errorf("%v %v does not end", name, args)
		}
		o := output{out.String(), err.String(), 0}
		var exit *exec.ExitError
		if errors.As(e, &exit) {
			o.code = exit.ExitCode()
		} else if e != nil {
			panic(e)
		}
		if strings.Contains(o.err, "goroutine ") && strings.Contains(o.err, "panic") {
			return o, fmt.Errorf("%v %v crashed:\n%v", name, args, o.err)
		}
		return o, nil
	}
}

func TestMain(m *testing.M) {
	code := m.Run()
	if workDir != "" {
		os.RemoveAll(workDir)
	}
	os.Exit(code)
}

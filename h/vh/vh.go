// Package vh runs one property of /verif/properties.jsonl over generated cases.
//
// It is compiled into the module under test through an overlay (see
// /verif/check.py), and takes all its parameters from the environment.
package vh

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Info describes what a case exercised.
type Info struct {
	NonTrivial bool
	Labels     []string
}

// Label adds a class label to the case.
func (i *Info) Label(cond bool, label string) {
	if cond {
		i.Labels = append(i.Labels, label)
	}
}

// Prop is one executable property over cases of type C. C must survive a JSON
// round trip, as failing cases are saved as JSON.
type Prop[C any] struct {
	// Name of the sub-property, unique within the check.
	Name string
	// Weight of the sub-property: share of the case budget in percent.
	Weight int
	// Gen generates a case.
	Gen func(t *rapid.T) C
	// Check decides a case. A panic is a violation.
	Check func(c C, info *Info) error
	// Known maps the failure of a case to a known finding, or "".
	Known func(c C, err error) string
}

type failure struct {
	Prop  string          `json:"prop"`
	Error string          `json:"error"`
	Case  json.RawMessage `json:"case"`
}

type result struct {
	Prop        string         `json:"prop"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  []string       `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []any          `json:"samples"`
	Known       map[string]int `json:"known"`
	Failure     *failure       `json:"failure"`
	Truncated   bool           `json:"truncated"`
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

var (
	outDir   = os.Getenv("VERIF_OUT")
	curStart atomic.Int64 // CPU time at which the current case started, or 0.
	curName  atomic.Value
	wdOnce   sync.Once
	wdEnable bool
	curBuf   []byte
	curMu    sync.Mutex
)

func cpuNow() int64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// CPUNow is the CPU time used by this process, in nanoseconds.
func CPUNow() int64 { return cpuNow() }

// Allocated is the number of bytes which f allocates.
func Allocated(f func()) uint64 {
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	f()
	runtime.ReadMemStats(&after)
	return after.TotalAlloc - before.TotalAlloc
}

// Linear reports whether the work of a step, which alloc measures in bytes, grows
// no faster than the size of the input. It tells a quadratic step, which would
// take 16 times as much for four times the input.
func Linear(small, large uint64) bool { return large <= 8*small+200000 }

func save(name string, v any) {
	if outDir == "" {
		return
	}
	buf, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(outDir, name), buf, 0o644); err != nil {
		panic(err)
	}
}

// watchdog ends a process whose current case uses far more CPU time or memory
// than any case can need. The driver runs the case again before it reports it.
func watchdog() {
	cpuLimit := int64(envInt("VERIF_CPU", 20)) * 1e9
	memLimit := uint64(envInt("VERIF_MEM", 3000)) << 20
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			start := curStart.Load()
			metrics.Read(sample)
			heap := sample[0].Value.Uint64()
			if start != 0 && cpuNow()-start > cpuLimit {
				// The same case must still be running.
				time.Sleep(10 * time.Millisecond)
				if curStart.Load() == start {
					die("cpu")
				}
			}
			if start != 0 && heap > memLimit {
				die("memory")
			}
		}
	}()
}

func die(why string) {
	curMu.Lock()
	buf := curBuf
	curMu.Unlock()
	os.WriteFile(filepath.Join(outDir, "hang.json"), buf, 0o644)
	os.WriteFile(filepath.Join(outDir, "hang.why"), []byte(why), 0o644)
	os.Exit(97)
}

// Guard runs f, and turns a panic into an error.
func Guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			stack := string(debug.Stack())
			lines := strings.Split(stack, "\n")
			if len(lines) > 40 {
				lines = lines[:40]
			}
			err = fmt.Errorf("panic: %v\n%v", r, strings.Join(lines, "\n"))
		}
	}()
	return f()
}

func runCase[C any](p *Prop[C], c C, info *Info) error {
	raw, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	buf, _ := json.Marshal(failure{Prop: p.Name, Case: raw})
	curMu.Lock()
	curBuf = buf
	curMu.Unlock()
	if outDir != "" {
		// A fatal error of the runtime cannot be recovered: the case is on disk.
		os.WriteFile(filepath.Join(outDir, "current.json"), buf, 0o644)
	}
	curStart.Store(cpuNow() + 1)
	defer curStart.Store(0)
	return Guard(func() error { return p.Check(c, info) })
}

// Run runs the property.
func Run[C any](t *testing.T, p Prop[C]) {
	wdOnce.Do(func() {
		debug.SetMaxStack(512 << 20)
		debug.SetGCPercent(200)
		if outDir != "" {
			watchdog()
		}
	})
	if path := os.Getenv("VERIF_REPLAY"); path != "" {
		replay(t, &p, path)
		return
	}
	res := &result{Prop: p.Name, Labels: map[string]int{}, Known: map[string]int{}}
	nontrivial := map[string]bool{}
	var best *failure

	record := func(c C, info *Info) {
		res.Evaluations++
		for _, l := range info.Labels {
			res.Labels[l]++
		}
		if info.NonTrivial {
			raw, _ := json.Marshal(c)
			sum := sha256.Sum256(raw)
			key := fmt.Sprintf("%016x", binary.BigEndian.Uint64(sum[:8]))
			if !nontrivial[key] {
				nontrivial[key] = true
				n := len(nontrivial)
				if n == 1 || n == 10 || n == 100 || n == 1000 {
					if len(raw) < 3000 {
						res.Samples = append(res.Samples, json.RawMessage(raw))
					}
				}
			}
		}
	}
	fail := func(c C, err error) {
		raw, _ := json.Marshal(c)
		if best == nil || len(raw) <= len(best.Case) {
			best = &failure{Prop: p.Name, Error: err.Error(), Case: raw}
			res.Failure = best
			save("result."+p.Name+".json", res)
		}
	}
	known := func(c C, err error) string {
		return p.known(c, err)
	}
	finish := func() {
		for k := range nontrivial {
			res.NonTrivial = append(res.NonTrivial, k)
		}
		sort.Strings(res.NonTrivial)
		res.Failure = best
		save("result."+p.Name+".json", res)
	}

	// Saved cases first.
	if dir := os.Getenv("VERIF_CORPUS"); dir != "" {
		files, _ := filepath.Glob(filepath.Join(dir, p.Name+".*.json"))
		sort.Strings(files)
		for _, f := range files {
			c := load[C](t, f)
			info := &Info{}
			err := runCase(&p, c, info)
			if k := known(c, err); k != "" {
				res.Known[k]++
				err = nil
			}
			record(c, info)
			if err != nil {
				fail(c, err)
				finish()
				t.Errorf("%v: %v", f, err)
				return
			}
		}
	}

	n := envInt("VERIF_N", 1000) * p.Weight / 100
	if n < 1 {
		n = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.Itoa(envInt("VERIF_RAPID_SEED", 1)))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", os.Getenv("VERIF_SHRINK"))
	deadline := time.Now().Add(time.Duration(envInt("VERIF_SOFT", 600)) * time.Second)
	failed := false
	t.Run(p.Name, func(t *testing.T) {
		defer func() { finish() }()
		rapid.Check(t, func(rt *rapid.T) {
			c := p.Gen(rt)
			if !failed && time.Now().After(deadline) {
				res.Truncated = true
				return
			}
			info := &Info{}
			err := runCase(&p, c, info)
			if k := known(c, err); k != "" {
				res.Known[k]++
				err = nil
			}
			if !failed {
				record(c, info)
			}
			if err != nil {
				failed = true
				fail(c, err)
				rt.Fatalf("%v", err)
			}
		})
	})
}

// known returns the key of the listed finding which the failure is, or "".
func (p *Prop[C]) known(c C, err error) string {
	if err == nil || p.Known == nil {
		return ""
	}
	k := p.Known(c, err)
	for _, listed := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if k != "" && k == listed {
			return k
		}
	}
	return ""
}

func load[C any](t *testing.T, path string) C {
	buf, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var f failure
	if err := json.Unmarshal(buf, &f); err != nil {
		t.Fatal(err)
	}
	var c C
	if err := json.Unmarshal(f.Case, &c); err != nil {
		t.Fatal(err)
	}
	return c
}

func replay[C any](t *testing.T, p *Prop[C], path string) {
	buf, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var f failure
	if err := json.Unmarshal(buf, &f); err != nil {
		t.Fatal(err)
	}
	if f.Prop != p.Name {
		return
	}
	c := load[C](t, path)
	info := &Info{}
	err = runCase(p, c, info)
	if err != nil {
		if k := p.known(c, err); k != "" {
			fmt.Printf("REPLAY known %v\n", k)
			return
		}
		fmt.Printf("REPLAY fail\n")
		t.Fatalf("%v", err)
	}
	fmt.Printf("REPLAY pass\n")
	runtime.GC()
}

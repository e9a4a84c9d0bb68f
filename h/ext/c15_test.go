package ext

import (
	"fmt"
	"io"
	"math"
	"runtime"
	"runtime/debug"
	"strings"
	"testing"

	"github.com/mewmew/typast/internal/ranges"
	"github.com/mewmew/typast/internal/stdx"
	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

type nestCase struct {
	Pre, Open, Mid, Close, Post string
	N, Closed                   int
}

func (c nestCase) text() string {
	return c.Pre + strings.Repeat(c.Open, c.N) + c.Mid + strings.Repeat(c.Close, c.Closed) + c.Post
}

func TestV_C15(t *testing.T) {
	check := func(c nestCase, info *vh.Info) error {
		text := c.text()
		start := vh.CPUNow()
		root := syntax.Parse(text)
		used := float64(vh.CPUNow()-start) / 1e9
		if used > 10 {
			return fmt.Errorf("%d bytes of nesting took %.1f s to parse", len(text), used)
		}
		if got := vgen.TextOf(root); got != text {
			return fmt.Errorf("leaves hold %q, not %q", got, text)
		}
		info.NonTrivial = c.N > 20
		info.Label(c.N > 100, "more than 100 levels")
		info.Label(c.N != c.Closed, "unclosed")
		return nil
	}
	vh.Run(t, vh.Prop[nestCase]{
		Name: "nested", Weight: 70,
		Gen: func(rt *rapid.T) nestCase {
			v := vgen.T{R: rt}
			c := nestCase{
				Pre:   v.Pick("#", "#{", "#let x = ", "#f(", "#let ", "#(", "#show "),
				Open:  v.Pick("(", "(a: (", "(a, ", "(a: ", "((", "(..", "(x, (y: ", "f((", "(a) => (", "((a) => ", "(_, (", "(a = (", "(-", "(a.b(", "(if a {(", "(x: 1, y: ", "(\"s\": "),
				Mid:   v.Pick("", "x", "1", "a: b", "..x", ",", "=>", "x =>", "a, b", "\"s\"", "(a) => b", "[c]", "{ let x = (1) }"),
				Close: v.Pick(")", "))", ") => x", ", b)", ") = 1", ")) => x", ")]", ": c)", ")}", ", ..r) = "),
				Post:  v.Pick("", " = 1", "}", ")", "=> x", " text", " => (a, b)"),
				N:     1 + v.N(60),
			}
			if v.Chance(1, 6) {
				c.N = 60 + v.N(200)
			}
			c.Closed = c.N
			if v.Chance(1, 3) {
				c.Closed = v.N(c.N + 5)
			}
			return c
		},
		Check: check,
	})
	vh.Run(t, vh.Prop[longCase]{
		Name: "long", Weight: 30,
		Gen: func(rt *rapid.T) longCase {
			v := vgen.T{R: rt}
			c := longCase{Pre: v.Pick("", "#{", "#(", "#[", "#let x = ", "- "), N: 200 + v.N(200), Op: v.N(4), At: v.N(5)}
			switch v.N(3) {
			case 0:
				c.Unit = v.Soup(1) + "\n"
			case 1:
				c.Unit = v.Soup(4)
			default:
				c.Unit = v.Document(1).Text() + v.Pick(" ", "\n", "\n\n")
			}
			return c
		},
		Check: func(c longCase, info *vh.Info) error {
			info.NonTrivial = len(c.Unit) > 2
			op := []string{"parse", "edit", "find", "lines"}[c.Op]
			info.Label(true, op)
			place := func(text string) uint64 {
				at := uint64(len(text)) * uint64(c.At) / 4
				for !stdx.IsCharBoundary(text, uint(at)) {
					at--
				}
				return at
			}
			measure := func(n int) (size int, used uint64) {
				text := c.Pre + strings.Repeat(c.Unit, n)
				if op == "parse" {
					return len(text), vh.Allocated(func() { syntax.Parse(text) })
				}
				if op == "lines" {
					return len(text), vh.Allocated(func() { syntax.NewLines(text) })
				}
				src := syntax.NewDetachedSource(text)
				if op == "edit" {
					at := place(text)
					return len(text), vh.Allocated(func() { src.Edit(ranges.NewRange(at, at), "x") })
				}
				node := src.Root
				for {
					in, ok := node.Repr.(*syntax.InnerNode)
					if !ok || len(in.Children) == 0 {
						break
					}
					node = in.Children[(len(in.Children)-1)*c.At/4]
				}
				return len(text), vh.Allocated(func() { src.Range(spanOf(node)) })
			}
			n1, a1 := measure(c.N)
			n2, a2 := measure(4 * c.N)
			if op == "edit" || op == "find" {
				// How much of the text is parsed again, or where the node is, depends on
				// the text. At worst, growing parts of the text are parsed in turn.
				text := c.Pre + strings.Repeat(c.Unit, 4*c.N)
				at := place(text)
				n1, a1 = n2, 5*vh.Allocated(func() {
					syntax.NewDetachedSource(text)
					syntax.NewDetachedSource(text[:at] + "x" + text[at:])
				})
			}
			if strings.ContainsAny(c.Unit, "([{") {
				// What is nested, and not expected at its place, may be copied once for
				// each level around it.
				a1 += uint64(n2 * c.N)
			}
			if !vh.Linear(a1, a2) {
				return fmt.Errorf("%v allocates %v bytes for a text of %v bytes, and %v for %v", op, a1, n1, a2, n2)
			}
			return nil
		},
	})
	vh.Run(t, vh.Prop[timeCase]{
		Name: "growth", Weight: 6,
		Gen: func(rt *rapid.T) timeCase {
			return timed(vgen.T{R: rt})
		},
		Check: func(c timeCase, info *vh.Info) error {
			op := timedOps[c.Op]
			info.Label(true, op.name)
			info.NonTrivial = len(c.Unit) > 2
			measure := func(size int) uint64 {
				return vh.Allocated(op.prepare(strings.Repeat(c.Unit, size/len(c.Unit))))
			}
			const small, times = 8 << 10, 16
			if a, b := measure(small), measure(small*times); b > 3*times*a+200000 {
				return fmt.Errorf("%v allocates %v bytes for %v bytes of %q, and %v for %v times that", op.name, a, small, c.Unit, b, times)
			}
			return nil
		},
	})
	vh.Run(t, vh.Prop[timeCase]{
		Name: "time", Weight: 1,
		Gen: func(rt *rapid.T) timeCase {
			return timed(vgen.T{R: rt})
		},
		Check: func(c timeCase, info *vh.Info) error {
			op := timedOps[c.Op]
			info.Label(true, op.name)
			info.NonTrivial = len(c.Unit) > 2
			measure := func(size, times int) float64 {
				text := strings.Repeat(c.Unit, size/len(c.Unit))
				f := op.prepare(text)
				best := math.Inf(1)
				defer debug.SetGCPercent(debug.SetGCPercent(-1))
				for range times {
					runtime.GC()
					start := vh.CPUNow()
					f()
					best = min(best, float64(vh.CPUNow()-start)/1e6)
				}
				return best
			}
			const small, times = 8 << 10, 16
			for _, n := range []int{1, 3, 5} {
				// Sixteen times the text takes no more than five times sixteen times the
				// time; what is measured once may be wrong.
				t1, t2 := max(measure(small, 3*n), 0.5), measure(small*times, n)
				if t2 <= 5*times*t1 {
					return nil
				}
				if n == 5 {
					return fmt.Errorf("%v takes %.2f ms for %v bytes of %q, and %.2f ms for %v times that", op.name, t1, small, c.Unit, t2, times)
				}
			}
			return nil
		},
	})
}

// timed draws an operation and lines of which the text is made.
func timed(v vgen.T) timeCase {
	c := timeCase{Op: v.N(len(timedOps))}
	if v.Chance(1, 3) {
		c.Op = 0
	}
	for range 1 + v.N(4) {
		c.Unit += v.Pick("- a\n", "+ b *c*\n", "= d\n", "word\n", "#let x = 1\n", "/ t: u\n", "#f(a, b: 2)[c]\n", "$x + y$\n", "#{ (a) => b }\n", "#if a { b } else { c }\n", "`raw`\n", "\"ä\" 🎉\n", "\n", "```py\nx\n```\n", "// e\n", "https://a.b/c\n", "  - nested\n", "#(1, 2)\n", "<l> @r\n", "#let f((a, ..b), c: (d: 1)) = a\n", "#(a, b) = c\n", "#for (x, y) in z [w]\n", "#let (p, q: r) = s\n", "#show: it => [i]\n", "#import \"j\": k, l as m\n", "$ sum_(i=0)^n i/2 $\n", "#[x *y* z]\n", "#(1 else 2)\n", "]\n", "#let = 1\n", "---\n", "\\u{41} \\# \n", "#{ 1\n 2 }\n")
	}
	return c
}

type timeCase struct {
	Unit string
	Op   int
}

// timedOps are operations which take time linear in the length of the text, if it
// has short lines. (What they return on the way is thrown away.)
var timedOps = []struct {
	name    string
	prepare func(text string) func()
}{
	{"parse", func(text string) func() {
		return func() { syntax.Parse(text) }
	}},
	{"source", func(text string) func() {
		return func() { syntax.NewDetachedSource(text) }
	}},
	{"lines", func(text string) func() {
		return func() { syntax.NewLines(text) }
	}},
	{"positions", func(text string) func() {
		l := syntax.NewLines(text)
		return func() {
			for i := range uint(len(text) + 1) {
				l.ByteToLine(i)
				l.ByteToColumn(i)
				if at, ok := l.ByteToUtf16(i); ok {
					l.Utf16ToByte(at)
				}
			}
			for i := range l.LenLines() {
				l.LineToByte(i)
				l.LineToRange(i)
				l.LineColumnToByte(i, 1)
			}
		}
	}},
	{"highlight", func(text string) func() {
		root := syntax.Parse(text)
		return func() { syntax.VerifHTML(root) }
	}},
	{"errors", func(text string) func() {
		root := syntax.Parse(text)
		return func() { syntax.VerifErrors(root) }
	}},
	{"print", func(text string) func() {
		root := syntax.Parse(text)
		return func() { syntax.PrintNode(io.Discard, root) }
	}},
	{"views", func(text string) func() {
		root := syntax.Parse(text)
		return func() { syntax.VerifAST(root) }
	}},
}

type longCase struct {
	Pre, Unit string
	N, Op, At int
}

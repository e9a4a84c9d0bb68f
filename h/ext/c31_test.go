package ext

import (
	"fmt"
	"math"
	"math/big"
	"slices"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/mewmew/typast/internal/mathx"
	"github.com/mewmew/typast/internal/option"
	"github.com/mewmew/typast/internal/ranges"
	"github.com/mewmew/typast/internal/scanner"
	"github.com/mewmew/typast/internal/stack"
	"github.com/mewmew/typast/internal/stdx"
	"github.com/mewmew/typast/internal/vector"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

// scanOp is a call of a scanner. Of its arguments, it uses those it takes.
type scanOp struct {
	Op   string
	N    int
	A, B uint64
	S    string
}

type scanCase struct {
	Text string
	Ops  []scanOp
}

// scanModel is a scanner over characters.
type scanModel struct {
	text []rune
	at   int
}

func (m *scanModel) pos(i int) uint { return uint(len(string(m.text[:i]))) }

// snap is the character at, or around, a byte position.
func (m *scanModel) snap(b uint64) int {
	n := 0
	for i, c := range m.text {
		n += len(string(c))
		if uint64(n) > b {
			return i
		}
	}
	return len(m.text)
}

func (m *scanModel) char(i int) string {
	if i < 0 || i >= len(m.text) {
		return "none"
	}
	return fmt.Sprintf("%q", m.text[i])
}

func charOf(c rune, ok bool) string {
	if !ok {
		return "none"
	}
	return fmt.Sprintf("%q", c)
}

// has reports whether the text at a character starts with a pattern.
func (m *scanModel) has(i int, s string) bool {
	p := []rune(s)
	return i+len(p) <= len(m.text) && slices.Equal(m.text[i:i+len(p)], p)
}

func in(s string) func(rune) bool {
	return func(c rune) bool {
		for _, x := range s {
			if x == c {
				return true
			}
		}
		return false
	}
}

// step does an operation on the scanner and on the model, and returns what they
// say.
func (m *scanModel) step(s *scanner.Scanner, o scanOp) (got, want string) {
	q := func(v any) string { return fmt.Sprintf("%q", v) }
	b := func(v bool) string { return fmt.Sprint(v) }
	slice := func(i, j int) string {
		if i > j {
			return ""
		}
		return string(m.text[i:j])
	}
	cond := in(o.S)
	here := m.at < len(m.text) && cond(m.text[min(m.at, len(m.text)-1)])
	eat := func(stop func(i int) bool) string {
		i := m.at
		for i < len(m.text) && !stop(i) {
			i++
		}
		out := slice(m.at, i)
		m.at = i
		return q(out)
	}
	switch o.Op {
	case "peek":
		return charOf(s.Peek()), m.char(m.at)
	case "at":
		return b(s.At(o.S)), b(m.has(m.at, o.S))
	case "at func":
		return b(s.AtFunc(cond)), b(here)
	case "at any":
		return b(s.AtAny([]rune(o.S))), b(here)
	case "scout":
		return charOf(s.Scout(o.N)), m.char(m.at + o.N)
	case "locate":
		return fmt.Sprint(s.Locate(o.N)), fmt.Sprint(m.pos(max(0, min(len(m.text), m.at+o.N))))
	case "eat":
		got, want = charOf(s.Eat()), m.char(m.at)
		m.at = min(m.at+1, len(m.text))
	case "uneat":
		got, want = charOf(s.Uneat()), m.char(m.at-1)
		m.at = max(m.at-1, 0)
	case "eat if":
		got, want = b(s.EatIf(o.S)), b(m.has(m.at, o.S))
		if m.has(m.at, o.S) {
			m.at += len([]rune(o.S))
		}
	case "eat if func", "eat if any":
		if o.Op == "eat if func" {
			got = b(s.EatIfFunc(cond))
		} else {
			got = b(s.EatIfAny([]rune(o.S)))
		}
		want = b(here)
		if here {
			m.at++
		}
	case "eat while":
		if o.S == "" {
			break
		}
		got = q(s.EatWhile(o.S))
		i := m.at
		for m.has(i, o.S) {
			i += len([]rune(o.S))
		}
		want = q(slice(m.at, i))
		m.at = i
	case "eat while func":
		got, want = q(s.EatWhileFunc(cond)), eat(func(i int) bool { return !cond(m.text[i]) })
	case "eat until":
		got, want = q(s.EatUntil(o.S)), eat(func(i int) bool { return m.has(i, o.S) })
	case "eat until func":
		got, want = q(s.EatUntilFunc(cond)), eat(func(i int) bool { return cond(m.text[i]) })
	case "expect":
		want = b(m.has(m.at, o.S))
		if m.has(m.at, o.S) {
			m.at += len([]rune(o.S))
		}
		got = b(func() (ok bool) {
			defer func() { recover() }()
			s.Expect(o.S)
			return true
		}())
	case "jump":
		s.Jump(uint(o.A))
		m.at = m.snap(o.A)
	case "from":
		return q(s.From(uint(o.A))), q(slice(m.snap(o.A), m.at))
	case "to":
		return q(s.To(uint(o.A))), q(slice(m.at, m.snap(o.A)))
	case "get":
		return q(s.Get(ranges.NewRange(o.A, o.B))), q(slice(m.snap(o.A), m.snap(o.B)))
	}
	return got, want
}

var scanOps = []string{"peek", "at", "at func", "at any", "scout", "locate", "eat", "uneat", "eat if", "eat if func", "eat if any", "eat while",
	"eat while func", "eat until", "eat until func", "expect", "jump", "from", "to", "get"}

func genScan(rt *rapid.T) scanCase {
	v := vgen.T{R: rt}
	piece := func() string {
		return v.Pick("a", "b", "ab", "aa", "\n", " ", "é", "漢", "𝔸", "\ufffd", "\u0301", "👩‍👩‍👧", "//", "\x00", "\r\n", "\u2028", "\U0010ffff")
	}
	c := scanCase{}
	for i, n := 0, v.N(14); i < n; i++ {
		c.Text += piece()
	}
	pos := func() uint64 {
		if v.Chance(1, 12) {
			return []uint64{1 << 31, 1 << 32, 1 << 63, math.MaxInt64, math.MaxUint64}[v.N(5)]
		}
		return uint64(v.N(len(c.Text) + 3))
	}
	for i, n := 0, 1+v.N(25); i < n; i++ {
		o := scanOp{Op: scanOps[v.N(len(scanOps))], N: v.N(15) - 7, A: pos(), B: pos()}
		if v.Chance(1, 20) {
			o.N *= 1 << 40
		}
		o.S = piece()
		if v.Chance(1, 3) {
			o.S += piece()
		}
		if len(c.Text) > 0 && v.Chance(1, 3) {
			r := []rune(c.Text)
			k := v.N(len(r))
			o.S = string(r[k:min(len(r), k+1+v.N(3))])
		}
		if v.Chance(1, 20) {
			o.S = ""
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// listOp is a call of a container.
type listOp struct {
	Op   string
	A, B int
	S    []int
}

func TestV_C31(t *testing.T) {
	vh.Run(t, vh.Prop[scanCase]{
		Name: "scanner", Weight: 75,
		Gen: genScan,
		Check: func(c scanCase, info *vh.Info) error {
			s := scanner.New(c.Text)
			m := &scanModel{text: []rune(c.Text)}
			moved := 0
			for i, o := range c.Ops {
				before := m.at
				clone := s.Clone()
				was := clone.Cursor()
				got, want := m.step(s, o)
				if got != want {
					return fmt.Errorf("operation %v, %v at %v of %q: %v, not %v", i, o, before, c.Text, got, want)
				}
				if m.at != before {
					moved++
				}
				if s.Cursor() != m.pos(m.at) {
					return fmt.Errorf("operation %v, %v at %v of %q: the cursor is %v, not %v", i, o, before, c.Text, s.Cursor(), m.pos(m.at))
				}
				if s.Text() != c.Text || s.Before() != string(m.text[:m.at]) || s.After() != string(m.text[m.at:]) || s.Done() != (m.at == len(m.text)) {
					return fmt.Errorf("operation %v, %v at %v of %q: %q, %q before, %q after, done is %v", i, o, before, c.Text, s.Text(), s.Before(), s.After(), s.Done())
				}
				if clone.Cursor() != was || was != m.pos(before) || clone.Text() != c.Text {
					return fmt.Errorf("operation %v, %v at %v of %q moved a clone to %v", i, o, before, c.Text, clone.Cursor())
				}
			}
			info.NonTrivial = moved > 1 && len(c.Text) > len(m.text)
			info.Label(moved > 1, "the cursor moved")
			info.Label(len(c.Text) > len(m.text), "characters of several bytes")
			return nil
		},
	})
	vh.Run(t, vh.Prop[[]listOp]{
		Name: "containers", Weight: 25,
		Gen: func(rt *rapid.T) []listOp {
			v := vgen.T{R: rt}
			var ops []listOp
			for i, n := 0, 1+v.N(20); i < n; i++ {
				o := listOp{Op: v.Pick("push", "push", "drain", "insert", "truncate", "extend", "pop", "range", "power"), A: v.N(12), B: v.N(12)}
				if o.Op == "power" {
					o.A = v.N(1 << 40)
					o.B = v.N(63)
				}
				for j, k := 0, v.N(4); j < k; j++ {
					o.S = append(o.S, v.N(100))
				}
				ops = append(ops, o)
			}
			return ops
		},
		Check: func(ops []listOp, info *vh.Info) error {
			var vec vector.Vector[int]
			st := stack.New[int]()
			var model, modelStack []int
			for i, o := range ops {
				fail := func(got, want any) error {
					return fmt.Errorf("operation %v, %v: %v, not %v", i, o, got, want)
				}
				switch a, b := min(o.A, len(model)), min(o.B, len(model)); o.Op {
				case "push":
					vec.Push(o.A)
					model = append(model, o.A)
					st.Push(o.A)
					modelStack = append(modelStack, o.A)
				case "pop":
					x, ok := st.Pop()
					want, wantOk := 0, len(modelStack) > 0
					if wantOk {
						want = modelStack[len(modelStack)-1]
						modelStack = modelStack[:len(modelStack)-1]
					}
					if x != want || ok != wantOk {
						return fail([]any{x, ok}, []any{want, wantOk})
					}
				case "drain":
					a, b = min(a, b), max(a, b)
					want := slices.Clone(model[a:b])
					model = slices.Concat(model[:a], model[b:])
					got := vec.Drain(ranges.NewRange(uint64(a), uint64(b)))
					if !slices.Equal(got, want) {
						return fail(got, want)
					}
					for i := range got {
						got[i] = -1 // not shared
					}
				case "insert":
					vec.Insert(a, o.B)
					model = slices.Concat(model[:a], []int{o.B}, model[a:])
				case "truncate":
					vec.Truncate(a)
					model = slices.Clone(model[:a])
				case "extend":
					vec.ExtendFromSlice(o.S)
					model = append(model, o.S...)
				case "range":
					r := ranges.NewRange(uint64(o.A), uint64(o.B))
					if r.IsEmpty() != (o.A >= o.B) {
						return fail(r.IsEmpty(), o.A >= o.B)
					}
					if o.A <= o.B && r.Len() != uint64(o.B-o.A) {
						return fail(r.Len(), o.B-o.A)
					}
				case "power":
					x := uint64(o.A) & (1<<o.B - 1)
					want := big.NewInt(1)
					for want.Cmp(new(big.Int).SetUint64(x)) < 0 {
						want.Lsh(want, 1)
					}
					if got := mathx.NextPowerOfTwo(x); got != want.Uint64() {
						return fail(got, want)
					}
				}
				if !slices.Equal([]int(vec), model) {
					return fail(vec, model)
				}
				top, ok := st.Top()
				if st.Size() != len(modelStack) || st.IsEmpty() != (len(modelStack) == 0) || ok != (len(modelStack) > 0) ||
					ok && top != modelStack[len(modelStack)-1] {
					return fail(st.String(), modelStack)
				}
				if got := strings.Join(strings.Fields(st.String()), " "); got != fmt.Sprint(modelStack) {
					return fail(got, modelStack)
				}
				some := option.Some(o.A)
				copied := some.Clone()
				if x, ok := copied.Get(); x != o.A || !ok || !copied.IsPresent() || some.MustGet() != o.A {
					return fail(x, o.A)
				}
				none := option.None[int]().Clone()
				if x, ok := none.Get(); x != 0 || ok || none.IsPresent() {
					return fail(x, "none")
				}
			}
			info.NonTrivial = len(model) > 2
			return nil
		},
	})
	vh.Run(t, vh.Prop[rune]{
		Name: "characters", Weight: 10,
		Gen: func(rt *rapid.T) rune {
			v := vgen.T{R: rt}
			switch v.N(4) {
			case 0:
				return rune(v.N(0x100))
			case 1:
				return []rune(v.Char())[0]
			case 2:
				return rune(v.N(0x3100))
			}
			c := rune(v.N(unicode.MaxRune + 1))
			if !utf8.ValidRune(c) {
				c -= 0x8000
			}
			return c
		},
		Check: func(c rune, info *vh.Info) error {
			info.NonTrivial = c > 0x7f
			lower, upper, digit := 'a' <= c && c <= 'z', 'A' <= c && c <= 'Z', '0' <= c && c <= '9'
			number := unicode.In(c, unicode.Nd, unicode.Nl, unicode.No)
			alphabetic := unicode.In(c, unicode.Lu, unicode.Ll, unicode.Lt, unicode.Lm, unicode.Lo, unicode.Nl, unicode.Other_Alphabetic)
			for _, x := range []struct {
				name      string
				got, want bool
			}{
				{"IsWhitespace", stdx.IsWhitespace(c), unicode.Is(unicode.White_Space, c)},
				{"IsAsciiLowercase", stdx.IsAsciiLowercase(c), lower},
				{"IsAsciiUppercase", stdx.IsAsciiUppercase(c), upper},
				{"IsAsciiAlphabetic", stdx.IsAsciiAlphabetic(c), lower || upper},
				{"IsAsciiDigit", stdx.IsAsciiDigit(c), digit},
				{"IsAsciiAlphanumeric", stdx.IsAsciiAlphanumeric(c), lower || upper || digit},
				{"IsAsciiHexdigit", stdx.IsAsciiHexdigit(c), digit || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F'},
				{"IsAlphabetic", stdx.IsAlphabetic(c), alphabetic},
				{"IsNumeric", stdx.IsNumeric(c), number},
				{"IsAlphanumeric", stdx.IsAlphanumeric(c), alphabetic || number},
			} {
				info.Label(x.want, x.name)
				if x.got != x.want {
					return fmt.Errorf("%s of %U is %v", x.name, c, x.got)
				}
			}
			s := "a" + string(c) + "b"
			for i := range uint(len(s) + 3) {
				if got, want := stdx.IsCharBoundary(s, i), i <= 1 || i == uint(len(s)-1) || i == uint(len(s)); got != want {
					return fmt.Errorf("IsCharBoundary of %q at %v is %v", s, i, got)
				}
			}
			return nil
		},
	})
}

package ext

import (
	"fmt"
	"slices"
	"testing"

	"github.com/mewmew/typast/internal/ranges"
	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

type spanCase struct {
	ID         uint16
	Number     uint64
	Start, End uint64
	Spans      []uint64
}

func edge(v vgen.T, bits ...uint) uint64 {
	b := bits[v.N(len(bits))]
	switch v.W(3, 3, 1) {
	case 0:
		return uint64(v.N(300)) * uint64(1+v.N(299)) % (1 << b)
	case 1:
		return uint64(1)<<b + uint64(v.N(5)) - 2
	default:
		return rapid.Uint64Range(0, 1<<b).Draw(v.R, "u")
	}
}

func TestV_C22(t *testing.T) {
	const first, limit, part = 2, uint64(1) << 47, uint64(1)<<23 - 1
	vh.Run(t, vh.Prop[spanCase]{
		Name: "span", Weight: 100,
		Gen: func(rt *rapid.T) spanCase {
			v := vgen.T{R: rt}
			c := spanCase{ID: uint16(1 + edge(v, 3, 8, 15)%0xffff), Number: edge(v, 1, 8, 22, 23, 46, 47, 48, 63), Start: edge(v, 4, 22, 23, 24, 46, 63), End: edge(v, 4, 22, 23, 24, 46, 63)}
			for i, n := 0, v.N(5); i < n; i++ {
				if v.Chance(1, 2) {
					c.Spans = append(c.Spans, 1)
				} else {
					c.Spans = append(c.Spans, uint64(c.ID)<<48|uint64(2+v.N(9)))
				}
			}
			return c
		},
		Check: func(c spanCase, info *vh.Info) error {
			info.NonTrivial = c.Number > 4
			id := syntax.FileIDFromUint16(c.ID)
			valid := c.Number >= first && c.Number < limit
			info.Label(valid, "number")
			info.Label(c.Start > part || c.End > part, "saturated range")
			same := func(s syntax.Span, number uint64) error {
				got, ok := s.ID()
				if !ok || got != id || s.Number() != number || s.IsDetached() {
					return fmt.Errorf("the span %v holds file %v, %v and number %v, not %v and %v", s, got, ok, s.Number(), id, number)
				}
				if syntax.NewSpanFromUint64(s.Uint64()) != s {
					return fmt.Errorf("the span %v is not its number %v", s, s.Uint64())
				}
				if s.Or(syntax.NewDetachedSpan()) != s || syntax.NewDetachedSpan().Or(s) != s {
					return fmt.Errorf("the span %v does not take precedence over a detached one", s)
				}
				return nil
			}
			s, ok := syntax.NewSpanFromNumber(id, c.Number)
			if ok != valid {
				return fmt.Errorf("number %d: valid %v", c.Number, ok)
			}
			if valid {
				if err := same(s, c.Number); err != nil {
					return err
				}
				if r, ok := s.RawRange(); ok {
					return fmt.Errorf("number %d has the raw range %v", c.Number, r)
				}
				if other, ok := syntax.NewSpanFromNumber(id, c.Number-1); ok && (other == s || other.Or(s) != other) {
					return fmt.Errorf("numbers %d and %d: %v, %v", c.Number, c.Number-1, s, other)
				}
			}
			// A raw range comes back, saturated.
			start, end := min(c.Start, part), min(c.End, part)
			raw := syntax.NewSpanFromRange(id, ranges.NewRange(c.Start, c.End))
			if err := same(raw, raw.Number()); err != nil {
				return err
			}
			if r, ok := raw.RawRange(); !ok || r.Start != start || r.End != end {
				return fmt.Errorf("range %d to %d is %v, %v", c.Start, c.End, r, ok)
			}
			if valid && raw == s {
				return fmt.Errorf("range %d to %d and number %d are the same span", c.Start, c.End, c.Number)
			}
			// Detached spans.
			d := syntax.NewDetachedSpan()
			if _, ok := d.ID(); ok || !d.IsDetached() {
				return fmt.Errorf("the detached span has a file")
			}
			if _, ok := d.RawRange(); ok {
				return fmt.Errorf("the detached span has a range")
			}
			if _, err := d.ResolvePath("a.typ"); err == nil {
				return fmt.Errorf("a path resolves from a detached span")
			}
			want := d
			var spans []syntax.Span
			for _, x := range c.Spans {
				sp := syntax.NewSpanFromUint64(x)
				spans = append(spans, sp)
				if want == d && x != 1 {
					want = sp
				}
			}
			if got := syntax.FindFirstNonDetached(slices.Values(spans)); got != want {
				return fmt.Errorf("the first attached span of %v is %v", spans, got)
			}
			sp := syntax.NewSpanned(int(c.Number), raw).Map(func(x int) int { return x + 1 })
			if sp.Value != int(c.Number)+1 || sp.Span != raw {
				return fmt.Errorf("mapped to %v", sp)
			}
			return nil
		},
	})
	type resolveCase struct{ Base, Path string }
	vh.Run(t, vh.Prop[resolveCase]{
		Name: "resolve", Weight: 10,
		Gen: func(rt *rapid.T) resolveCase {
			v := vgen.T{R: rt}
			seg := func() string { return v.Pick("a", "b", "../c", "/d", "./e") }
			return resolveCase{seg() + "/" + seg() + ".typ", seg() + "/" + seg()}
		},
		Check: func(c resolveCase, info *vh.Info) error {
			info.NonTrivial = true
			src := syntax.NewSource(syntax.NewFileID(pkg(len(c.Base)%7), syntax.NewVirtualPath(c.Base)), "text")
			span, ok := syntax.NewSpanFromNumber(src.ID, 77)
			if !ok {
				return fmt.Errorf("no span")
			}
			id, err := span.ResolvePath(c.Path)
			if err != nil {
				return err
			}
			return checkFile(id, fileModel{pkgName(len(c.Base) % 7), joined(clean(c.Base), c.Path)})
		},
	})
}

package ext

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

// spans prints a tree with its spans.
func spans(node *syntax.SyntaxNode) string {
	out := &strings.Builder{}
	var walk func(n *syntax.SyntaxNode)
	walk = func(node *syntax.SyntaxNode) {
		switch n := node.Repr.(type) {
		case *syntax.LeafNode:
			fmt.Fprintf(out, "%v %v\n", n.Kind, n.Span)
		case *syntax.InnerNode:
			fmt.Fprintf(out, "%v %v %v\n", n.Kind, n.Span, n.Upper)
			for _, c := range n.Children {
				walk(c)
			}
			fmt.Fprintf(out, "end\n")
		case *syntax.ErrorNode:
			fmt.Fprintf(out, "ERROR %v\n", n.Error.Span)
		}
	}
	walk(node)
	return out.String()
}

// session parses a text, and edits it. It returns all that can be seen, step by
// step.
func session(h vgen.History) []string {
	var out []string
	see := func(src *syntax.Source) {
		out = append(out, src.Text()+"\n"+full(src.Root)+spans(src.Root)+syntax.VerifHTML(src.Root))
	}
	src := syntax.NewDetachedSource(h.Text)
	see(src)
	for _, e := range h.Edits {
		out = append(out, fmt.Sprint(play(src, e)))
		see(src)
	}
	spec, err := syntax.ParsePackageSpec(h.Text)
	out = append(out, fmt.Sprint(spec, err))
	return out
}

// alike returns a session on a text of the same length with some other characters.
func alike(v vgen.T, h vgen.History) vgen.History {
	text := []byte(h.Text)
	for range 1 + v.N(4) {
		if len(text) == 0 {
			break
		}
		if at := v.N(len(text)); text[at] < 0x80 {
			text[at] = v.Pick(" ", "\n", "-", "(", ")", "x", "1", "*", "]", "\"", "$", "=")[0]
		}
	}
	return vgen.History{Text: string(text), Edits: h.Edits}
}

func TestV_C30(t *testing.T) {
	vh.Run(t, vh.Prop[[]vgen.History]{
		Name: "sessions", Weight: 100,
		Gen: func(rt *rapid.T) []vgen.History {
			v := vgen.T{R: rt}
			var c []vgen.History
			for i, n := 0, 2+v.N(4); i < n; i++ {
				if i > 0 && v.Chance(1, 4) {
					c = append(c, c[v.N(i)]) // the same again
				} else if i > 0 && v.Chance(1, 3) {
					c = append(c, alike(v, c[v.N(i)]))
				} else {
					c = append(c, v.History(3))
				}
			}
			return c
		},
		Check: func(c []vgen.History, info *vh.Info) error {
			// At once, before anything else has seen the texts.
			const copies = 2
			results := make([][]string, copies*len(c))
			panics := make([]error, len(results))
			start := make(chan struct{})
			var wg sync.WaitGroup
			for i := range results {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					panics[i] = vh.Guard(func() error {
						results[i] = session(c[i%len(c)])
						return nil
					})
				}()
			}
			close(start)
			wg.Wait()
			for i, err := range panics {
				if err != nil {
					return fmt.Errorf("session %v, next to others: %v", i%len(c), err)
				}
			}
			// One after the other, and in reverse.
			for pass := range 2 {
				for k := range c {
					i := k
					if pass == 1 {
						i = len(c) - 1 - k
					}
					want := session(c[i])
					for j := i; j < len(results); j += len(c) {
						for s := range want {
							if results[j][s] != want[s] {
								return fmt.Errorf("session %v (%q), step %v: %v", i, c[i].Text, s, vgen.DiffText(want[s], results[j][s]))
							}
						}
					}
				}
			}
			// Step by step in turns: no source changes another one.
			srcs := make([]*syntax.Source, len(c))
			for i, h := range c {
				srcs[i] = syntax.NewDetachedSource(h.Text)
			}
			longest := 0
			for _, h := range c {
				longest = max(longest, len(h.Edits))
			}
			for s := range longest {
				for i, h := range c {
					if s < len(h.Edits) {
						play(srcs[i], h.Edits[s])
					}
				}
			}
			for i := range c {
				last := srcs[i].Text() + "\n" + full(srcs[i].Root) + spans(srcs[i].Root) + syntax.VerifHTML(srcs[i].Root)
				steps := results[i]
				if want := steps[len(steps)-2]; last != want {
					return fmt.Errorf("session %v (%q), in turns with others: %v", i, c[i].Text, vgen.DiffText(want, last))
				}
			}
			info.NonTrivial = len(c) > 2
			return nil
		},
	})
}

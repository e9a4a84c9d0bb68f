package ext

import (
	"fmt"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

type linkCase struct {
	Text    string
	Picks   []int
	Cursors []int
	Walk    []string
}

var linkSteps = []string{"parent", "previous sibling", "next sibling", "previous leaf", "next leaf", "leftmost leaf", "rightmost leaf", "first child", "last child"}

func TestV_C26(t *testing.T) {
	vh.Run(t, vh.Prop[linkCase]{
		Name: "navigation", Weight: 100,
		Gen: func(rt *rapid.T) linkCase {
			v := vgen.T{R: rt}
			c := linkCase{Text: v.Text()}
			for i, n := 0, 1+v.N(4); i < n; i++ {
				c.Picks = append(c.Picks, v.N(200))
				c.Cursors = append(c.Cursors, v.N(200))
			}
			for i, n := 0, v.N(12); i < n; i++ {
				c.Walk = append(c.Walk, linkSteps[v.N(len(linkSteps))])
			}
			return c
		},
		Check: func(c linkCase, info *vh.Info) error {
			src := syntax.NewDetachedSource(c.Text)
			ps := places(src.Root)
			number := map[*syntax.SyntaxNode]int{}
			bySpan := map[syntax.Span]int{}
			for i, p := range ps {
				number[p.node] = i
				bySpan[spanOf(p.node)] = i
			}
			info.NonTrivial = len(ps) > 5

			// What each step leads to, over the list of all nodes.
			search := func(from, to, by int, ok func(p place) bool) []int {
				for j := from; j != to+by; j += by {
					if ok(ps[j]) {
						return []int{j}
					}
				}
				return nil
			}
			sibling := func(i, by int) []int {
				if ps[i].parent < 0 {
					return nil
				}
				all := ps[ps[i].parent].children
				at := 0
				for all[at] != i {
					at++
				}
				for at += by; at >= 0 && at < len(all); at += by {
					if !ps[all[at]].trivia() {
						return []int{all[at]}
					}
				}
				return nil
			}
			reversed := func(is []int) []int {
				var out []int
				for j := len(is) - 1; j >= 0; j-- {
					out = append(out, is[j])
				}
				return out
			}
			// at finds the token, error, or empty node around a byte.
			at := func(i int, in func(p place) bool) []int {
				return search(i, ps[i].last, 1, func(p place) bool { return len(p.children) == 0 && in(p) })
			}
			model := func(i int, step string, cursor int) []int {
				switch step {
				case "children":
					return ps[i].children
				case "children from the back":
					return reversed(ps[i].children)
				case "parent":
					if ps[i].parent < 0 {
						return nil
					}
					return []int{ps[i].parent}
				case "previous sibling":
					return sibling(i, -1)
				case "next sibling":
					return sibling(i, 1)
				case "previous leaf":
					return search(i, 0, -1, func(p place) bool { return p.token() && p.end <= ps[i].start && number[p.node] < i })
				case "next leaf":
					if ps[i].last+1 == len(ps) {
						return nil
					}
					return search(ps[i].last+1, len(ps)-1, 1, place.token)
				case "leftmost leaf":
					return search(i, ps[i].last, 1, place.token)
				case "rightmost leaf":
					return search(ps[i].last, i, -1, place.token)
				case "leaf before":
					return at(i, func(p place) bool { return p.start < cursor && cursor <= p.end })
				case "leaf after":
					return at(i, func(p place) bool { return p.start <= cursor && cursor < p.end })
				}
				panic(step)
			}
			describe := func(is []int) string {
				out := ""
				for _, i := range is {
					out += fmt.Sprintf(" node %v (%v, %v..%v)", i, ps[i].node.SyntaxKind(), ps[i].start, ps[i].end)
				}
				if out == "" {
					return " nothing"
				}
				return out
			}
			locate := func(l *syntax.LinkedNode) (int, error) {
				n := syntax.VerifNode(l)
				i, ok := number[n]
				if !ok {
					// A copy of a node has its number.
					i, ok = bySpan[spanOf(n)]
				}
				if !ok {
					return 0, fmt.Errorf("%v is not in the tree", n.SyntaxKind())
				}
				if r := l.Range(); int(r.Start) != ps[i].start || int(r.End) != ps[i].end {
					return 0, fmt.Errorf("node %v (%v) is at %v..%v, not at %v", i, n.SyntaxKind(), ps[i].start, ps[i].end, r)
				}
				return i, nil
			}
			step := func(l *syntax.LinkedNode, i int, step string, cursor int) ([]*syntax.LinkedNode, error) {
				links := syntax.VerifStep(l, step, uint(cursor))
				var got []int
				for _, l := range links {
					j, err := locate(l)
					if err != nil {
						return nil, fmt.Errorf("%v of%v: %v", step, describe([]int{i}), err)
					}
					got = append(got, j)
				}
				want := model(i, step, cursor)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					return nil, fmt.Errorf("%v of%v, cursor %v:%v, not%v", step, describe([]int{i}), cursor, describe(got), describe(want))
				}
				return links, nil
			}
			// descend finds a node from the root.
			descend := func(i int) (*syntax.LinkedNode, error) {
				var path []int
				for j := i; j >= 0; j = ps[j].parent {
					path = append(path, j)
				}
				path = reversed(path)
				l := syntax.NewLinkedNode(src.Root)
				for k := 1; k < len(path); k++ {
					children, err := step(l, path[k-1], "children", 0)
					if err != nil {
						return nil, err
					}
					for n, c := range ps[path[k-1]].children {
						if c == path[k] {
							l = children[n]
						}
					}
				}
				return l, nil
			}
			all := append([]string{"children", "children from the back"}, linkSteps[:7]...)
			examine := func(l *syntax.LinkedNode, i int) error {
				for _, s := range all {
					if _, err := step(l, i, s, 0); err != nil {
						return err
					}
				}
				kind := func(step string) syntax.SyntaxKind {
					if is := model(i, step, 0); is != nil {
						return ps[is[0]].node.SyntaxKind()
					}
					return 0
				}
				p, a, b := syntax.VerifKinds(l)
				if p != kind("parent") || a != kind("previous sibling") || b != kind("next sibling") {
					return fmt.Errorf("kinds around%v: %v, %v, %v", describe([]int{i}), p, a, b)
				}
				return nil
			}
			for _, pick := range c.Picks {
				i := pick % len(ps)
				l, err := descend(i)
				if err != nil {
					return err
				}
				if err := examine(l, i); err != nil {
					return err
				}
				// The same node, found by its span.
				l, ok := src.Find(spanOf(ps[i].node))
				if !ok {
					return fmt.Errorf("%v is not found by its span", describe([]int{i}))
				}
				if j, err := locate(l); err != nil || j != i {
					return fmt.Errorf("found%v by the span of%v: %v", describe([]int{j}), describe([]int{i}), err)
				}
				if err := examine(l, i); err != nil {
					return fmt.Errorf("found by span: %v", err)
				}
				for _, cur := range c.Cursors {
					from := i
					if cur%3 != 0 {
						from, l = 0, syntax.NewLinkedNode(src.Root)
					}
					size := ps[from].end - ps[from].start
					if size == 0 {
						continue
					}
					info.Label(true, "leaf at a byte")
					// There is no leaf beyond the node.
					if _, err := step(l, from, "leaf after", ps[from].end+cur); err != nil {
						return err
					}
					if _, err := step(l, from, "leaf before", ps[from].end+1+cur); err != nil {
						return err
					}
					cur = cur % size
					if _, err := step(l, from, "leaf after", ps[from].start+cur); err != nil {
						return err
					}
					if _, err := step(l, from, "leaf before", ps[from].start+cur+1); err != nil {
						return err
					}
					l, _ = src.Find(spanOf(ps[i].node))
				}
			}
			// Steps one after the other.
			l, i := syntax.NewLinkedNode(src.Root), 0
			taken := 0
			for _, s := range c.Walk {
				what, n := s, 0
				switch s {
				case "first child":
					what = "children"
				case "last child":
					what = "children from the back"
				}
				links, err := step(l, i, what, 0)
				if err != nil {
					return fmt.Errorf("after %v steps: %v", taken, err)
				}
				if len(links) == 0 {
					continue
				}
				taken++
				l = links[n]
				if i, err = locate(l); err != nil {
					return err
				}
			}
			info.Label(taken > 4, "walk of more than four steps")
			return examine(l, i)
		},
	})
}

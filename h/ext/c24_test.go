package ext

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/mewmew/typast/typst/cstwalk"
	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

type walkCase struct {
	Text string
	Stop []int // numbers, in source order, of the nodes below which the visitor does not want to go
	Repr bool  // the visitor stops at the representation, not at the node
	Root int   // what the walk starts from: node, pointer to node, representation, pointer to or variable of that
	Sub  int   // the node, in source order, which the walk starts at
	Twin bool  // a node is a child of its parent twice
	// Other walks of the tree before this one, which go down as many nodes, and
	// the visited node at which another walk is made.
	Before []int
	Nested int
	// The node, in source order from one, which the visitor replaces by the tree
	// of another text when it gets the pointer to it.
	Replace int
	By      string
}

func allNodes(n *syntax.SyntaxNode) []*syntax.SyntaxNode {
	out := []*syntax.SyntaxNode{n}
	if in, ok := n.Repr.(*syntax.InnerNode); ok {
		for _, c := range in.Children {
			out = append(out, allNodes(c)...)
		}
	}
	return out
}

func TestV_C24(t *testing.T) {
	vh.Run(t, vh.Prop[walkCase]{
		Name: "walk", Weight: 100,
		Gen: func(rt *rapid.T) walkCase {
			v := vgen.T{R: rt}
			c := walkCase{Text: v.Text(), Repr: v.Chance(1, 2), Root: v.N(5), Twin: v.Chance(1, 10)}
			if v.Chance(1, 3) {
				c.Sub = v.N(20)
			}
			for i, n := 0, v.W(4, 1, 1); i < n; i++ {
				c.Before = append(c.Before, v.N(40))
			}
			if v.Chance(1, 4) {
				c.Nested = 1 + v.N(20)
			}
			for i, n := 0, v.N(4); i < n; i++ {
				c.Stop = append(c.Stop, v.N(30))
			}
			if v.Chance(1, 4) && c.Nested == 0 && len(c.Before) == 0 && !c.Twin {
				c.Replace, c.By = 1+v.N(20), v.Pick("", "a", "*b* c", "#f(1)[d]", "/*", "$x$")
			}
			return c
		},
		Check: func(c walkCase, info *vh.Info) error {
			nodes := allNodes(syntax.Parse(c.Text))
			root := nodes[c.Sub%len(nodes)]
			if c.Twin {
				// The second of a pair of equal children was seen before.
				if in, ok := root.Repr.(*syntax.InnerNode); ok && len(in.Children) > 0 {
					in.Children = append(in.Children, in.Children[0])
				} else {
					c.Twin = false
				}
			}
			stop := map[*syntax.SyntaxNode]bool{}
			for _, i := range c.Stop {
				stop[nodes[i%len(nodes)]] = true
			}
			name := func(n any) string {
				for i, m := range nodes {
					if any(m) == n {
						return fmt.Sprintf("node %v (%v)", i, m.SyntaxKind())
					}
					if any(m.Repr) == n {
						return fmt.Sprintf("representation of node %v (%v)", i, m.SyntaxKind())
					}
				}
				return fmt.Sprintf("%T", n)
			}

			// What the walk should visit.
			var want []any
			seen := map[any]bool{}
			pruned := 0
			var model func(n *syntax.SyntaxNode, below bool)
			// The new node replaces one within the root.
			var old, by *syntax.SyntaxNode
			if c.Replace > 0 {
				if under := allNodes(root); len(under) > 1 {
					old, by = under[1+c.Replace%(len(under)-1)], syntax.Parse(c.By)
				}
			}
			model = func(n *syntax.SyntaxNode, below bool) {
				if n == old {
					n = by
				}
				if seen[n] {
					return
				}
				seen[n] = true
				if below || c.Root < 2 {
					want = append(want, n)
					if stop[n] && !c.Repr {
						pruned++
						return
					}
				}
				want = append(want, n.Repr)
				if stop[n] && c.Repr {
					pruned++
					return
				}
				if in, ok := n.Repr.(*syntax.InnerNode); ok {
					for _, c := range in.Children {
						model(c, true)
					}
				}
			}
			model(root, false)

			full := func() (count int) {
				cstwalk.Walk(root, func(n any) bool { count++; return true })
				return count
			}
			first := -1
			for _, k := range c.Before {
				if k%2 == 0 {
					count := full()
					if first >= 0 && count != first {
						return fmt.Errorf("one walk of %q visits %d values, the next one %d", c.Text, first, count)
					}
					first = count
				} else {
					cstwalk.Walk(root, func(n any) bool { k--; return k > 0 })
				}
			}

			var got []any
			text := &strings.Builder{}
			visits := 0
			var nested error
			visit := func(n any) bool {
				visits++
				if visits == c.Nested {
					if a, b := full(), full(); a != b || first >= 0 && a != first {
						nested = fmt.Errorf("walks of %q within a walk visit %d and %d values, one before it %d", c.Text, a, b, first)
					}
				}
				switch n := n.(type) {
				case *syntax.SyntaxNode:
					got = append(got, n)
					return c.Repr || !stop[n]
				case *syntax.LeafNode:
					text.WriteString(n.Text)
					got = append(got, n)
				case *syntax.ErrorNode:
					text.WriteString(n.Text)
					got = append(got, n)
				case *syntax.InnerNode:
					got = append(got, n)
				case **syntax.SyntaxNode:
					if old != nil && *n == old {
						*n = by
					}
					return true
				default:
					return true
				}
				if c.Repr {
					for s := range stop {
						if any(s.Repr) == n {
							return false
						}
					}
				}
				return true
			}
			switch c.Root {
			case 0:
				cstwalk.Walk(root, visit)
			case 1:
				cstwalk.Walk(&root, visit)
			case 2:
				cstwalk.Walk(root.Repr, visit)
			case 3:
				cstwalk.Walk(&root.Repr, visit)
			case 4:
				switch r := root.Repr.(type) {
				case *syntax.LeafNode:
					cstwalk.Walk(&r, visit)
				case *syntax.InnerNode:
					cstwalk.Walk(&r, visit)
				case *syntax.ErrorNode:
					cstwalk.Walk(&r, visit)
				}
			}
			if nested != nil {
				return nested
			}
			info.NonTrivial = len(want) > 6
			info.Label(pruned > 0, "pruned")
			info.Label(pruned > 0 && len(want) > 20, "pruned and went on")
			info.Label(c.Twin, "shared node")
			info.Label(c.Sub != 0, "starts within the tree")
			if !slices.Equal(got, want) {
				for i := range want {
					if i >= len(got) {
						return fmt.Errorf("visit %v: nothing, not %v", i, name(want[i]))
					}
					if got[i] != want[i] {
						return fmt.Errorf("visit %v: %v, not %v", i, name(got[i]), name(want[i]))
					}
				}
				return fmt.Errorf("visit %v: %v, expected none", len(want), name(got[len(want)]))
			}
			info.Label(old != nil, "a node was replaced")
			if by != nil && slices.ContainsFunc(got, func(n any) bool { return n == any(by) || n == any(by.Repr) }) {
				if after := allNodes(root); slices.Contains(after, old) || !slices.Contains(after, by) {
					return fmt.Errorf("a node of %q which was replaced through its pointer is still in the tree", c.Text)
				}
			}
			if pruned == 0 && !c.Twin && root == nodes[0] && old == nil && text.String() != c.Text {
				return fmt.Errorf("the tokens visited hold %q, not %q", text.String(), c.Text)
			}
			return nil
		},
	})
}

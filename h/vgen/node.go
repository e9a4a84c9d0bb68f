// Package vgen generates Typst source together with the concrete syntax tree
// which the grammar of Typst prescribes for it. It does not use the parser.
package vgen

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/mewmew/typast/typst/syntax"
	"pgregory.net/rapid"
)

// Kind abbreviates the exported kind type.
type Kind = syntax.SyntaxKind

// N is a node of the expected tree: a token (Leaf), or an inner node.
type N struct {
	K    Kind
	Leaf bool
	T    string
	C    []*N
}

// L is a token.
func L(k Kind, t string) *N { return &N{K: k, Leaf: true, T: t} }

// I is an inner node.
func I(k Kind, c ...*N) *N { return &N{K: k, C: c} }

// Text is the source text of the node.
func (n *N) Text() string {
	out := &strings.Builder{}
	n.text(out)
	return out.String()
}

func (n *N) text(out *strings.Builder) {
	if n.Leaf {
		out.WriteString(n.T)
		return
	}
	for _, c := range n.C {
		c.text(out)
	}
}

// Sexp prints the tree, one node per line.
func (n *N) Sexp() string {
	out := &strings.Builder{}
	n.sexp(out, 0)
	return out.String()
}

func (n *N) sexp(out *strings.Builder, depth int) {
	out.WriteString(strings.Repeat(" ", depth))
	out.WriteString(n.K.String())
	if n.Leaf {
		out.WriteString(" ")
		out.WriteString(strconv.Quote(n.T))
	}
	out.WriteString("\n")
	for _, c := range n.C {
		c.sexp(out, depth+1)
	}
}

// Size is the number of nodes.
func (n *N) Size() int {
	s := 1
	for _, c := range n.C {
		s += c.Size()
	}
	return s
}

// Walk visits all nodes.
func (n *N) Walk(f func(n *N)) {
	f(n)
	for _, c := range n.C {
		c.Walk(f)
	}
}

// Kinds counts the kinds of nodes.
func (n *N) Kinds() map[Kind]int {
	m := map[Kind]int{}
	n.Walk(func(n *N) { m[n.K]++ })
	return m
}

// SexpOf prints an actual tree in the form of Sexp. Errors are printed as such.
func SexpOf(node *syntax.SyntaxNode) string {
	out := &strings.Builder{}
	sexpOf(out, node, 0, false)
	return out.String()
}

// MeaningOf is SexpOf without nodes which say nothing: attachments in math of
// which there are none. Typst makes some after primes.
func MeaningOf(node *syntax.SyntaxNode) string {
	out := &strings.Builder{}
	sexpOf(out, node, 0, true)
	return out.String()
}

func sexpOf(out *strings.Builder, node *syntax.SyntaxNode, depth int, meaning bool) {
	if n, ok := node.Repr.(*syntax.InnerNode); ok && meaning && n.Kind == syntax.SyntaxKindMathAttach && len(n.Children) == 1 {
		sexpOf(out, n.Children[0], depth, meaning)
		return
	}
	out.WriteString(strings.Repeat(" ", depth))
	switch n := node.Repr.(type) {
	case *syntax.LeafNode:
		fmt.Fprintf(out, "%v %q\n", n.Kind, n.Text)
	case *syntax.InnerNode:
		fmt.Fprintf(out, "%v\n", n.Kind)
		for _, c := range n.Children {
			sexpOf(out, c, depth+1, meaning)
		}
	case *syntax.ErrorNode:
		fmt.Fprintf(out, "ERROR %q %q\n", n.Error.Message, n.Text)
	default:
		fmt.Fprintf(out, "UNKNOWN %T\n", n)
	}
}

// TextOf is the text of an actual tree, leaf by leaf.
func TextOf(node *syntax.SyntaxNode) string {
	out := &strings.Builder{}
	var walk func(node *syntax.SyntaxNode)
	walk = func(node *syntax.SyntaxNode) {
		switch n := node.Repr.(type) {
		case *syntax.LeafNode:
			out.WriteString(n.Text)
		case *syntax.InnerNode:
			for _, c := range n.Children {
				walk(c)
			}
		case *syntax.ErrorNode:
			out.WriteString(n.Text)
		}
	}
	walk(node)
	return out.String()
}

// Errors lists the messages of all error nodes.
func Errors(node *syntax.SyntaxNode) []string {
	var msgs []string
	var walk func(node *syntax.SyntaxNode)
	walk = func(node *syntax.SyntaxNode) {
		switch n := node.Repr.(type) {
		case *syntax.InnerNode:
			for _, c := range n.Children {
				walk(c)
			}
		case *syntax.ErrorNode:
			msgs = append(msgs, n.Error.Message)
		}
	}
	walk(node)
	return msgs
}

// DiffText shows the first differing line of two texts.
func DiffText(want, got string) string {
	w := strings.Split(want, "\n")
	g := strings.Split(got, "\n")
	for i := 0; i < len(w) || i < len(g); i++ {
		a, b := "<end>", "<end>"
		if i < len(w) {
			a = w[i]
		}
		if i < len(g) {
			b = g[i]
		}
		if a != b {
			return fmt.Sprintf("line %d: want %s, got %s", i+1, a, b)
		}
	}
	return ""
}

// Draw helpers.

// T wraps the source of choices.
type T struct {
	R *rapid.T
	// Whether to leave out equations.
	NoMath bool
}

var (
	ints  = map[int]*rapid.Generator[int]{}
	bools = rapid.Bool()
)

func init() {
	for i := 0; i < 300; i++ {
		ints[i] = rapid.IntRange(0, i)
	}
}

// N draws a number in [0, n).
func (t T) N(n int) int {
	if n <= 1 {
		return 0
	}
	g, ok := ints[n-1]
	if !ok {
		g = rapid.IntRange(0, n-1)
	}
	return g.Draw(t.R, "n")
}

// Chance is true in k of n cases. It shrinks to false.
func (t T) Chance(k, n int) bool { return t.N(n) >= n-k }

// Pick picks a string. It shrinks to the first.
func (t T) Pick(s ...string) string { return s[t.N(len(s))] }

// W picks an index by weight. It shrinks to the first.
func (t T) W(weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	x := t.N(sum)
	for i, w := range weights {
		if x < w {
			return i
		}
		x -= w
	}
	return 0
}

package ext

import "github.com/mewmew/typast/typst/syntax"

// place is a node of a tree, in its context.
type place struct {
	node       *syntax.SyntaxNode
	start, end int
	parent     int // number of the parent, or -1
	children   []int
	last       int // number of the last node below it
}

// places lists the nodes of a tree in source order.
func places(n *syntax.SyntaxNode) []place {
	var ps []place
	var walk func(n *syntax.SyntaxNode, parent, at int) int
	walk = func(n *syntax.SyntaxNode, parent, at int) int {
		i := len(ps)
		ps = append(ps, place{node: n, start: at, parent: parent})
		if parent >= 0 {
			ps[parent].children = append(ps[parent].children, i)
		}
		switch r := n.Repr.(type) {
		case *syntax.LeafNode:
			at += len(r.Text)
		case *syntax.ErrorNode:
			at += len(r.Text)
		case *syntax.InnerNode:
			for _, c := range r.Children {
				at = walk(c, i, at)
			}
		}
		ps[i].end = at
		ps[i].last = len(ps) - 1
		return at
	}
	walk(n, -1, 0)
	return ps
}

// token reports whether the place is a token which is not trivia.
func (p place) token() bool {
	_, ok := p.node.Repr.(*syntax.LeafNode)
	return ok && !p.trivia()
}

func (p place) trivia() bool {
	switch p.node.SyntaxKind() {
	case syntax.SyntaxKindSpace, syntax.SyntaxKindParbreak, syntax.SyntaxKindLineComment, syntax.SyntaxKindBlockComment, syntax.SyntaxKindShebang:
		return true
	}
	return false
}

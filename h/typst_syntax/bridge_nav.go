package syntax

// VerifStep takes one step from a node of a tree.
func VerifStep(l *LinkedNode, step string, cursor uint) []*LinkedNode {
	one := func(l *LinkedNode, ok bool) []*LinkedNode {
		if !ok {
			return nil
		}
		return []*LinkedNode{l}
	}
	var all []*LinkedNode
	switch step {
	case "children":
		for _, c := range l.children().Children() {
			all = append(all, c)
		}
		return all
	case "children from the back":
		for _, c := range l.children().RevChildren() {
			all = append(all, c)
		}
		return all
	case "parent":
		return one(l.parent.Get())
	case "previous sibling":
		return one(l.prev_sibling())
	case "next sibling":
		return one(l.next_sibling())
	case "previous leaf":
		return one(l.prev_leaf())
	case "next leaf":
		return one(l.next_leaf())
	case "leftmost leaf":
		return one(l.leftmost_leaf())
	case "rightmost leaf":
		return one(l.rightmost_leaf())
	case "leaf before":
		return one(l.leaf_at(cursor, SideBefore))
	case "leaf after":
		return one(l.leaf_at(cursor, SideAfter))
	}
	panic(step)
}

// VerifKinds are the kinds of a node's parent and siblings, or 0.
func VerifKinds(l *LinkedNode) (parent, prev, next SyntaxKind) {
	parent, _ = l.parent_kind()
	prev, _ = l.prev_sibling_kind()
	next, _ = l.next_sibling_kind()
	return
}

// VerifNode is the node itself.
func VerifNode(l *LinkedNode) *SyntaxNode { return l.get() }

package syntax

// VerifErrors lists the errors of a node.
func VerifErrors(n *SyntaxNode) []*SyntaxError { return n.errors() }

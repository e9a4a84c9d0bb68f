package syntax

// VerifHTML highlights a tree.
func VerifHTML(root *SyntaxNode) string { return highlight_html(root) }

package syntax

// VerifParseCode parses top-level code.
func VerifParseCode(text string) *SyntaxNode { return parse_code(text) }

// VerifParseMath parses top-level math.
func VerifParseMath(text string) *SyntaxNode { return parse_math(text) }

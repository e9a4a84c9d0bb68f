package ext

// keywords are the words of code which are no names.
var keywords = []string{"not", "and", "or", "none", "auto", "let", "set", "show", "context", "if", "else", "for", "in", "while", "break", "continue", "return", "import", "include", "as", "true", "false"}

// mathChars are the characters which shorthands stand for.
var mathChars = map[string]rune{
	"...": 0x2026, "-": 0x2212, "*": 0x2217, "~": 0x223c, "!=": 0x2260, ":=": 0x2254, "::=": 0x2a74, "=:": 0x2255, "<<": 0x226a, "<<<": 0x22d8, ">>": 0x226b, ">>>": 0x22d9,
	"<=": 0x2264, ">=": 0x2265, "->": 0x2192, "-->": 0x27f6, "|->": 0x21a6, ">->": 0x21a3, "->>": 0x21a0, "<-": 0x2190, "<--": 0x27f5, "<-<": 0x21a2, "<<-": 0x219e,
	"<->": 0x2194, "<-->": 0x27f7, "~>": 0x21dd, "~~>": 0x27ff, "<~": 0x21dc, "<~~": 0x2b33, "=>": 0x21d2, "|=>": 0x2907, "==>": 0x27f9, "<==": 0x27f8, "<=>": 0x21d4,
	"<==>": 0x27fa, "[|": 0x27e6, "|]": 0x27e7, "||": 0x2016,
}

package ext

import (
	"fmt"
	"math/big"
	"slices"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

// A reference tokenizer for text in one of the three modes. It stops where the
// mode may change: at a hash or dollar sign in markup and math, at a bracket or
// dollar sign in code, at a closing delimiter of code which does not match, and
// in math where it depends on an error whether an argument starts or ends.
type refTokens struct {
	src  []rune
	at   int
	mode string
	toks []refToken
	open []rune
}

type refToken struct {
	text string
	kind string // "error" for what is no token.
}

func (r *refTokens) peek(n int) rune {
	if i := r.at + n; i >= 0 && i < len(r.src) {
		return r.src[i]
	}
	return -1
}

func (r *refTokens) has(s string) bool { return r.hasAt(0, s) }

func (r *refTokens) hasAt(n int, s string) bool {
	for _, c := range s {
		if r.peek(n) != c {
			return false
		}
		n++
	}
	return true
}

// while is the number of characters from n on for which f holds.
func (r *refTokens) while(n int, f func(rune) bool) int {
	k := 0
	for c := r.peek(n + k); c >= 0 && f(c); c = r.peek(n + k) {
		k++
	}
	return k
}

func refNewline(c rune) bool { return slices.Contains([]rune("\n\x0b\x0c\r\u0085\u2028\u2029"), c) }
func refSpace(c rune) bool   { return c >= 0 && unicode.Is(unicode.White_Space, c) }
func refDigit(c rune) bool   { return c >= '0' && c <= '9' }
func refASCII(c rune) bool {
	return refDigit(c) || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
func refAlnum(c rune) bool {
	return c >= 0 && (unicode.IsLetter(c) || unicode.Is(unicode.N, c) || unicode.Is(unicode.Other_Alphabetic, c))
}
func refStart(c rune) bool {
	return c == '_' || c == '℘' || c == '℮' || c >= 0 && unicode.IsLetter(c)
}
func refCont(c rune) bool {
	return refStart(c) || c == '-' || c >= 0 && (unicode.In(c, unicode.Nd, unicode.Mn, unicode.Mc, unicode.Nl, unicode.Pc) || c == '\u00b7')
}
func refLabel(c rune) bool { return refCont(c) || c == ':' || c == '.' }

// hasEnd reports whether white space, a comment or the end is at n.
func (r *refTokens) hasEnd(n int) bool {
	return r.peek(n) < 0 || refSpace(r.peek(n)) || r.hasAt(n, "//") || r.hasAt(n, "/*")
}

func tokensOf(text, mode string, from int) []refToken {
	r := &refTokens{src: []rune(text), mode: mode, at: utf8.RuneCountInString(text[:from])}
	for r.at < len(r.src) {
		n, kind := r.token()
		if n == 0 {
			break
		}
		r.toks = append(r.toks, refToken{string(r.src[r.at : r.at+n]), kind})
		r.at += n
	}
	if mode != "markup" {
		// Where the mode ends, the trivia before belong to the next.
		for n := len(r.toks); n > 0; n-- {
			switch r.toks[n-1].kind {
			case "space", "line comment", "block comment":
				r.toks = r.toks[:n-1]
				continue
			}
			break
		}
	}
	return r.toks
}

// token is the length and the kind of the next token.
func (r *refTokens) token() (int, string) {
	c := r.peek(0)
	space := refSpace
	if r.mode == "markup" {
		space = func(c rune) bool { return c == ' ' || c == '\t' || refNewline(c) }
	}
	if n := r.while(0, space); n > 0 {
		lines := 0
		for i := 0; i < n; i++ {
			if refNewline(r.peek(i)) && !(r.peek(i) == '\n' && i > 0 && r.peek(i-1) == '\r') {
				lines++
			}
		}
		if r.mode == "markup" && lines >= 2 {
			return n, "paragraph break"
		}
		return n, "space"
	}
	rest := func(n int) int { return r.while(n, func(rune) bool { return true }) }
	line := func(n int) int { return r.while(n, func(c rune) bool { return !refNewline(c) }) }
	switch {
	case r.at == 0 && r.has("#!"):
		return line(0), "shebang"
	case r.has("//"):
		return line(0), "line comment"
	case r.has("/*"):
		n, depth := 2, 1
		for depth > 0 && r.peek(n) >= 0 {
			switch {
			case r.hasAt(n, "/*"):
				n, depth = n+2, depth+1
			case r.hasAt(n, "*/"):
				n, depth = n+2, depth-1
			default:
				n++
			}
		}
		return n, "block comment"
	case r.has("*/"):
		return 2, "error"
	case c == '`' && r.mode != "math":
		ticks := r.while(0, func(c rune) bool { return c == '`' })
		if ticks == 2 {
			return 2, "raw"
		}
		for n := ticks; r.peek(n) >= 0; n++ {
			if r.hasAt(n, strings.Repeat("`", ticks)) {
				return n + ticks, "raw"
			}
		}
		return rest(0), "error"
	}
	switch r.mode {
	case "markup":
		return r.markup(c)
	case "math":
		return r.math(c)
	}
	return r.code(c)
}

func (r *refTokens) backslash() (int, string) {
	if r.hasAt(1, "u{") {
		n := 3 + r.while(3, refASCII)
		if r.peek(n) != '}' {
			return n, "error"
		}
		x, ok := new(big.Int).SetString(string(r.src[r.at+3:r.at+n]), 16)
		if !ok || !x.IsInt64() || x.Int64() > 0x10ffff || x.Int64() >= 0xd800 && x.Int64() <= 0xdfff {
			return n + 1, "error"
		}
		return n + 1, "escape sequence"
	}
	if r.peek(1) < 0 || refSpace(r.peek(1)) {
		return 1, "line break"
	}
	return 2, "escape sequence"
}

func (r *refTokens) label() (int, string) {
	n := 1 + r.while(1, refLabel)
	if r.peek(n) != '>' {
		return n, "error"
	}
	return n + 1, "label"
}

// inWord reports whether the character is between two which are parts of words.
func (r *refTokens) inWord() bool {
	wordy := func(c rune) bool {
		return refAlnum(c) && !unicode.In(c, unicode.Han, unicode.Hiragana, unicode.Katakana, unicode.Hangul)
	}
	return wordy(r.peek(-1)) && wordy(r.peek(1))
}

func (r *refTokens) link() (int, string) {
	n := 7
	if r.has("https") {
		n++
	}
	var open []rune
	balanced := true
loop:
	for ; ; n++ {
		c := r.peek(n)
		switch {
		case c == '[' || c == '(':
			open = append(open, c)
		case c == ']' || c == ')':
			if len(open) == 0 {
				break loop
			}
			last := open[len(open)-1]
			open = open[:len(open)-1]
			if (last == '[') != (c == ']') {
				break loop
			}
		case c >= 0 && (refASCII(c) || strings.ContainsRune("!#$%&*+,-./:;=?@_~'", c)):
		default:
			break loop
		}
	}
	balanced = len(open) == 0
	for strings.ContainsRune("!,.:;?'", r.peek(n-1)) && n > 7 {
		if r.has("https") && n == 8 {
			break
		}
		n--
	}
	if !balanced {
		return n, "error"
	}
	return n, "link"
}

func (r *refTokens) markup(c rune) (int, string) {
	switch {
	case c == '#' || c == '$':
		return 0, ""
	case c == '\\':
		return r.backslash()
	case r.has("http://"), r.has("https://"):
		return r.link()
	case c == '<' && refCont(r.peek(1)):
		return r.label()
	case c == '@' && refCont(r.peek(1)):
		n := 1 + r.while(1, refLabel)
		for r.peek(n-1) == '.' || r.peek(n-1) == ':' {
			n--
		}
		return n, "reference marker"
	case r.has("..."), r.has("---"):
		return 3, "shorthand"
	case r.has("--"), r.has("-?"):
		return 2, "shorthand"
	case c == '-' && r.peek(1) >= 0 && unicode.Is(unicode.N, r.peek(1)):
		return 1, "shorthand"
	case c == '*' && !r.inWord():
		return 1, "star"
	case c == '_' && !r.inWord():
		return 1, "underscore"
	case c == '[':
		return 1, "opening bracket"
	case c == ']':
		return 1, "closing bracket"
	case c == '\'' || c == '"':
		return 1, "smart quote"
	case c == '~':
		return 1, "shorthand"
	case c == ':':
		return 1, "colon"
	case c == '=':
		n := r.while(0, func(c rune) bool { return c == '=' })
		if r.hasEnd(n) {
			return n, "heading marker"
		}
		return r.text(n), "text"
	case c == '-' && r.hasEnd(1):
		return 1, "list marker"
	case c == '+' && r.hasEnd(1):
		return 1, "enum marker"
	case c == '/' && r.hasEnd(1):
		return 1, "term marker"
	case refDigit(c):
		n := r.while(0, refDigit)
		if r.peek(n) == '.' {
			x, _ := new(big.Int).SetString(string(r.src[r.at:r.at+n]), 10)
			n++
			if r.hasEnd(n) && x.IsUint64() {
				return n, "enum marker"
			}
		}
		return r.text(n), "text"
	}
	return r.text(1), "text"
}

// text is the length of text of which n characters are known.
func (r *refTokens) text(n int) int {
	for ; r.peek(n) >= 0; n++ {
		c := r.peek(n)
		next := r.peek(n + 1)
		switch {
		case c == ' ':
			if !refAlnum(next) {
				return n
			}
		case c == '/':
			if next == '/' || next == '*' {
				return n
			}
		case c == '-':
			if next == '-' || next == '?' {
				return n
			}
		case c == '.':
			if r.hasAt(n, "...") {
				return n
			}
		case c == 'h':
			if r.hasAt(n, "http://") || r.hasAt(n, "https://") {
				return n
			}
		case c == '@':
			if next >= 0 && refLabel(next) {
				return n
			}
		case refSpace(c), strings.ContainsRune("\\[]~'\"*_:`$<>#", c):
			return n
		}
	}
	return n
}

func (r *refTokens) str() (int, string) {
	n := 1
	for r.peek(n) >= 0 && r.peek(n) != '"' {
		if r.peek(n) == '\\' && r.peek(n+1) >= 0 {
			n++
		}
		n++
	}
	if r.peek(n) < 0 {
		return n, "error"
	}
	return n + 1, "string"
}

var mathShorthands = func() []string {
	var ss []string
	for s := range mathChars {
		ss = append(ss, s)
	}
	slices.SortFunc(ss, func(a, b string) int { return len(b) - len(a) })
	return ss
}()

func (r *refTokens) math(c rune) (int, string) {
	start := func(c rune) bool { return c != '_' && refStart(c) }
	cont := func(c rune) bool { return c != '_' && c != '-' && refCont(c) }
	if n, kind, done := r.argument(c); done {
		return n, kind
	}
	// Fields of a name.
	if n := len(r.toks); n > 0 && (r.toks[n-1].kind == "math identifier" || r.toks[n-1].kind == "identifier") && c == '.' && start(r.peek(1)) {
		return 1, "dot"
	} else if n > 1 && r.toks[n-1].kind == "dot" && (r.toks[n-2].kind == "math identifier" || r.toks[n-2].kind == "identifier") && start(c) {
		return 1 + r.while(1, cont), "identifier"
	}
	switch c {
	case '#', '$':
		return 0, ""
	case '\\':
		return r.backslash()
	case '"':
		return r.str()
	}
	for _, s := range mathShorthands {
		if r.has(s) {
			return utf8.RuneCountInString(s), "math shorthand"
		}
	}
	switch c {
	case '.':
		return 1, "text dot"
	case ',', ';', ')':
		return 1, "punctuation"
	case '_':
		return 1, "underscore"
	case '/':
		return 1, "slash"
	case '^':
		return 1, "hat"
	case '\'':
		return 1, "prime"
	case '&':
		return 1, "math alignment point"
	case '√', '∛', '∜':
		return 1, "root"
	}
	if start(c) && cont(r.peek(1)) {
		return 1 + r.while(1, cont), "math identifier"
	}
	numeric := func(c rune) bool { return unicode.Is(unicode.N, c) }
	if n := r.while(0, numeric); n > 0 {
		if r.peek(n) == '.' {
			if m := r.while(n+1, numeric); m > 0 {
				return n + 1 + m, "math text"
			}
		}
		return n, "math text"
	}
	return 1 + r.while(1, func(c rune) bool { return unicode.In(c, unicode.Mn) || c == '\u200d' }), "math text"
}

// argument is the token which a call in math makes of what is next, if any:
// names and dots are special where an argument starts. In math, open holds
// what the text is in: 'c' for a call, 's' for one with an argument which is
// spread, and 'd' for other delimiters.
func (r *refTokens) argument(c rune) (n int, kind string, done bool) {
	before := func(n int) (string, string, int) { // the n-th token before, without trivia
		for i := len(r.toks) - 1; i >= 0; i-- {
			switch r.toks[i].kind {
			case "space", "line comment", "block comment":
				continue
			}
			if n--; n < 0 {
				return r.toks[i].text, r.toks[i].kind, i
			}
		}
		return "", "", -1
	}
	in := ' '
	if len(r.open) > 0 {
		in = r.open[len(r.open)-1]
	}
	call := in == 'c' || in == 's'
	last, lastKind, lastAt := before(0)
	operand := slices.Contains([]string{"underscore", "hat", "slash", "root", "dots"}, lastKind)
	marks := r.while(1, func(c rune) bool { return unicode.In(c, unicode.Mn) || c == '\u200d' })
	switch {
	case c == ')' || strings.ContainsRune("]}⟩⌉⌋", c) && marks == 0 || r.has("|]"):
		if call && c != ')' || in == ' ' {
			return 0, "", false
		}
		if operand {
			return 0, "", true // whether it is an operand is left open
		}
		r.open = r.open[:len(r.open)-1]
		return 0, "", false
	case r.has("[|") || strings.ContainsRune("([{⟨⌈⌊", c) && marks == 0:
		name := lastKind == "identifier" || lastKind == "math identifier"
		if c != '(' || !name || lastAt != len(r.toks)-1 {
			r.open = append(r.open, 'd')
			return 0, "", false
		}
		// A name is called, but not as an index or exponent.
		k := 1
		for _, kind, _ := before(k); kind == "dot"; _, kind, _ = before(k) {
			k += 2
		}
		if _, kind, _ := before(k); kind == "underscore" || kind == "hat" {
			switch text, kind, _ := before(k + 1); {
			case kind == "" || kind == "error" || kind == "underscore" || kind == "hat" || kind == "slash" || kind == "root" || kind == "dots" || kind == "opening parenthesis",
				text != "" && strings.Contains("[|,;:([{⟨⌈⌊", text):
				return 0, "", true // an index of nothing
			}
			r.open = append(r.open, 'd')
			return 0, "", false
		}
		r.open = append(r.open, 'c')
		return 1, "opening parenthesis", true
	case !call:
		return 0, "", false
	case c == ',' || c == ';':
		if operand {
			return 0, "", true
		}
		r.open[len(r.open)-1] = 'c'
		return 0, "", false
	}
	starts := lastKind == "opening parenthesis" || lastKind == "punctuation" && (last == "," || last == ";")
	if !starts && in == 'c' {
		return 0, "", false
	}
	switch name := r.while(0, refCont); {
	case r.has("..") && r.peek(2) != '.' && !r.hasEnd(2):
		n, kind = 2, "dots"
	case refStart(c) && r.peek(name) == ':' && !r.hasAt(name, ":=") && !r.hasAt(name, "::="):
		n, kind = name, "identifier"
		if name == 1 && c == '_' {
			kind = "error"
		}
	default:
		return 0, "", false
	}
	if !starts {
		return 0, "", true // after what was spread, the next may be an argument as well
	}
	if kind == "dots" {
		r.open[len(r.open)-1] = 's'
	}
	return n, kind, true
}

// tokenKinds are the kinds which the names above stand for.
var tokenKinds = map[string]syntax.SyntaxKind{
	"paragraph break": syntax.SyntaxKindParbreak, "space": syntax.SyntaxKindSpace, "shebang": syntax.SyntaxKindShebang, "line comment": syntax.SyntaxKindLineComment, "block comment": syntax.SyntaxKindBlockComment,
	"raw": syntax.SyntaxKindRaw, "escape sequence": syntax.SyntaxKindEscape, "line break": syntax.SyntaxKindLinebreak, "label": syntax.SyntaxKindLabel, "link": syntax.SyntaxKindLink, "reference marker": syntax.SyntaxKindRefMarker,
	"shorthand": syntax.SyntaxKindShorthand, "star": syntax.SyntaxKindStar, "underscore": syntax.SyntaxKindUnderscore, "opening bracket": syntax.SyntaxKindLeftBracket, "closing bracket": syntax.SyntaxKindRightBracket,
	"smart quote": syntax.SyntaxKindSmartQuote, "colon": syntax.SyntaxKindColon, "heading marker": syntax.SyntaxKindHeadingMarker, "list marker": syntax.SyntaxKindListMarker, "enum marker": syntax.SyntaxKindEnumMarker,
	"term marker": syntax.SyntaxKindTermMarker, "text": syntax.SyntaxKindText, "string": syntax.SyntaxKindStr, "dot": syntax.SyntaxKindDot, "identifier": syntax.SyntaxKindIdent, "math alignment point": syntax.SyntaxKindMathAlignPoint,
	"math shorthand": syntax.SyntaxKindMathShorthand, "math identifier": syntax.SyntaxKindMathIdent, "hat": syntax.SyntaxKindHat, "slash": syntax.SyntaxKindSlash, "opening parenthesis": syntax.SyntaxKindLeftParen, "dots": syntax.SyntaxKindDots, "prime": syntax.SyntaxKindPrime, "root": syntax.SyntaxKindRoot,
	"integer": syntax.SyntaxKindInt, "float": syntax.SyntaxKindFloat, "numeric value": syntax.SyntaxKindNumeric,

	"none": syntax.SyntaxKindNone, "auto": syntax.SyntaxKindAuto, "true": syntax.SyntaxKindBool, "false": syntax.SyntaxKindBool, "not": syntax.SyntaxKindNot, "and": syntax.SyntaxKindAnd, "or": syntax.SyntaxKindOr,
	"let": syntax.SyntaxKindLet, "set": syntax.SyntaxKindSet, "show": syntax.SyntaxKindShow, "context": syntax.SyntaxKindContext, "if": syntax.SyntaxKindIf, "else": syntax.SyntaxKindElse, "for": syntax.SyntaxKindFor, "in": syntax.SyntaxKindIn,
	"while": syntax.SyntaxKindWhile, "break": syntax.SyntaxKindBreak, "continue": syntax.SyntaxKindContinue, "return": syntax.SyntaxKindReturn, "import": syntax.SyntaxKindImport, "include": syntax.SyntaxKindInclude, "as": syntax.SyntaxKindAs,

	"==": syntax.SyntaxKindEqEq, "!=": syntax.SyntaxKindExclEq, "<=": syntax.SyntaxKindLtEq, ">=": syntax.SyntaxKindGtEq, "+=": syntax.SyntaxKindPlusEq, "-=": syntax.SyntaxKindHyphEq, "\u2212=": syntax.SyntaxKindHyphEq,
	"*=": syntax.SyntaxKindStarEq, "/=": syntax.SyntaxKindSlashEq, "..": syntax.SyntaxKindDots, "=>": syntax.SyntaxKindArrow, "{": syntax.SyntaxKindLeftBrace, "}": syntax.SyntaxKindRightBrace, "(": syntax.SyntaxKindLeftParen, ")": syntax.SyntaxKindRightParen,
	",": syntax.SyntaxKindComma, ";": syntax.SyntaxKindSemicolon, ":": syntax.SyntaxKindColon, ".": syntax.SyntaxKindDot, "+": syntax.SyntaxKindPlus, "-": syntax.SyntaxKindMinus, "\u2212": syntax.SyntaxKindMinus, "*": syntax.SyntaxKindStar, "/": syntax.SyntaxKindSlash,
	"=": syntax.SyntaxKindEq, "<": syntax.SyntaxKindLt, ">": syntax.SyntaxKindGt,
}

func (r *refTokens) code(c rune) (int, string) {
	switch {
	case c == '[' || c == ']' || c == '$':
		return 0, ""
	case c == '(' || c == '{':
		r.open = append(r.open, c)
	case c == ')' || c == '}':
		want := '('
		if c == '}' {
			want = '{'
		}
		if len(r.open) == 0 || r.open[len(r.open)-1] != want {
			return 0, ""
		}
		r.open = r.open[:len(r.open)-1]
		if len(r.open) == 0 {
			// The end of the code block around all.
			return 0, ""
		}
	case c == ';':
		// Ends what is in parentheses, which are left without an end.
		for len(r.open) > 0 && r.open[len(r.open)-1] == '(' {
			r.open = r.open[:len(r.open)-1]
		}
	case c == '<' && refCont(r.peek(1)):
		return r.label()
	case refDigit(c), c == '.' && refDigit(r.peek(1)):
		return r.number(c)
	case c == '"':
		return r.str()
	}
	for l := 2; l > 0; l-- {
		if r.at+l <= len(r.src) {
			if s := string(r.src[r.at : r.at+l]); !refStart([]rune(s)[0]) && tokenKinds[s] != 0 {
				return l, s
			}
		}
	}
	if !refStart(c) {
		return 1, "error"
	}
	n := 1 + r.while(1, refCont)
	word := string(r.src[r.at : r.at+n])
	if (r.peek(-1) != '.' && r.peek(-1) != '@') || r.peek(-1) == '.' && r.peek(-2) == '.' {
		if slices.Contains(keywords, word) {
			return n, word
		}
	}
	if word == "_" {
		return n, "underscore"
	}
	return n, "identifier"
}

func (r *refTokens) number(c rune) (int, string) {
	digits := func(n, base int) (int, bool) {
		m := r.while(n, refASCII)
		text := string(r.src[r.at+n : r.at+n+m])
		x, ok := new(big.Int).SetString(text, base)
		return m, ok && x.IsInt64()
	}
	for prefix, base := range map[string]int{"0b": 2, "0o": 8, "0x": 16} {
		if r.has(prefix) {
			m, ok := digits(2, base)
			m += r.while(2+m, func(c rune) bool { return refASCII(c) || c == '%' })
			if string(r.src[r.at+2:r.at+2+m]) != strings.TrimRight(string(r.src[r.at+2:r.at+2+m]), "%") {
				ok = false
			}
			if !ok {
				return 2 + m, "error"
			}
			return 2 + m, "integer"
		}
	}
	n := r.while(0, refDigit)
	kind, bad := "integer", false
	if c == '.' {
		n = 1 + r.while(1, refDigit)
		kind = "float"
	} else if r.peek(n) == '.' && r.peek(n+1) != '.' && !refStart(r.peek(n+1)) {
		n++
		n += r.while(n, refDigit)
		kind = "float"
	}
	if e := r.peek(n); (e == 'e' || e == 'E') && !r.hasAt(n, "em") {
		n++
		kind = "float"
		if r.peek(n) == '+' || r.peek(n) == '-' {
			n++
		}
		m := r.while(n, refDigit)
		bad = m == 0
		n += m
	}
	m := r.while(n, func(c rune) bool { return refASCII(c) || c == '%' })
	switch string(r.src[r.at+n : r.at+n+m]) {
	case "":
	case "pt", "mm", "cm", "in", "deg", "rad", "em", "fr", "%":
		kind = "numeric value"
	default:
		bad = true
	}
	if bad {
		kind = "error"
	}
	return n + m, kind
}

// leaf is a leaf of a tree, with raw text as one.
type leaf struct {
	text string
	kind syntax.SyntaxKind
	err  bool
	open bool // an opening delimiter that opens nothing
}

func tokenLeaves(n *syntax.SyntaxNode) []leaf {
	switch r := n.Repr.(type) {
	case *syntax.LeafNode:
		return []leaf{{text: r.Text, kind: r.Kind}}
	case *syntax.ErrorNode:
		open := (r.Text == "(" || r.Text == "{" || r.Text == "[") && r.Error.Message != "unclosed delimiter"
		return []leaf{{text: r.Text, err: true, open: open}}
	case *syntax.InnerNode:
		if r.Kind == syntax.SyntaxKindRaw {
			return []leaf{{text: vgen.TextOf(n), kind: r.Kind}}
		}
		var ls []leaf
		for _, c := range r.Children {
			ls = append(ls, tokenLeaves(c)...)
		}
		return ls
	}
	return nil
}

type tokenCase struct{ Text, Mode string }

// sameKind reports whether a token may have the kind in a tree. The parser
// decides whether a marker is one.
func sameKind(mode, want string, got syntax.SyntaxKind) bool {
	if tokenKinds[want] == got {
		return true
	}
	switch mode {
	case "markup":
		switch want {
		case "heading marker", "list marker", "enum marker", "term marker", "colon", "opening bracket", "closing bracket":
			return got == syntax.SyntaxKindText
		}
	case "math":
		switch want {
		case "text dot", "punctuation", "math text":
			return true
		}
	}
	return false
}

func checkTokens(c tokenCase, info *vh.Info) error {
	text, from := c.Text, 0
	switch c.Mode {
	case "math":
		text, from = "$"+text+"$", 1
	case "code":
		text, from = "#{"+text+"\n}", 1
	}
	want := tokensOf(text, c.Mode, from)
	info.NonTrivial = len(want) > 3
	info.Label(true, c.Mode)
	end := from
	for _, t := range want {
		end += len(t.text)
		if t.kind == "error" {
			info.Label(true, "no token")
		}
	}
	at, i, upto := 0, 0, from
	for _, l := range tokenLeaves(syntax.Parse(text)) {
		start := at
		at += len(l.text)
		if l.text == "" || at <= from {
			continue
		}
		if at > end || c.Mode == "code" && l.open {
			break
		}
		if !l.err {
			if i >= len(want) || upto != start || want[i].text != l.text {
				return fmt.Errorf("%q at %d is a token of %q, not %q", l.text, start, text, want[min(i, len(want)-1)].text)
			}
			if want[i].kind == "error" || !sameKind(c.Mode, want[i].kind, l.kind) {
				return fmt.Errorf("%q at %d of %q is %v, not %v", l.text, start, text, l.kind, want[i].kind)
			}
		}
		for upto < at && i < len(want) {
			upto += len(want[i].text)
			i++
		}
		if upto != at {
			return fmt.Errorf("%q at %d is no token of %q: one ends at %d", l.text, start, text, upto)
		}
	}
	return nil
}

var markupPieces = []string{
	"a", "b", "h", "http", "https", "word", "1", "23", "0", "42949672960", "18446744073709551615", "18446744073709551616", "00000000000000000000001", "é", "漢", "字", "한", "국", "あ", "カ", "ー", "٣", "½", "Ⅳ", "²", "e\u0301", "\u0301", "ª", "ß", "ⓐ", "हि", "ी", "ำ", "ก",
	" ", " ", " ", "  ", "\t", "\n", "\n\n", "\r\n", "\r", "\x0b", "\f", "\u0085", "\u2028", "\u2029", "\u00a0", "\u2003", "\u3000", "\u200b", "\ufeff", "\x00", "\x1c",
	"*", "_", "`", "``", "```", "~", ":", "=", "-", "+", "/", ".", "?", ",", ";", "!", "'", "\"", "<", ">", "@", "[", "]", "(", ")", "{", "}", "\\", "|", "&", "%", "^",
	"...", "..", "--", "---", "-?", "//", "/*", "*/", "#!", "http://", "https://", "h", "ttp://", "\\u{", "41", "}", "d800", "110000", "zz", "<a", "@a", "1.", "= ", "- ", "+ ", "/ ", "x_y", "x*y", "#", "$",
}

var codePieces = []string{
	"a", "b1", "_", "__", "x-y", "é", "漢字", "ª", "℘", "٣", "\u00b7", "\u0301", "in", "as", "if", "else", "for", "let", "set", "show", "not", "and", "or", "none", "auto", "true", "false", "while", "break", "continue", "return", "import", "include", "context", "s",
	"0", "1", "9", "12", "0b", "0o", "0x", "0X", "0B", "ff", "FF", "8", "2", ".", "..", "...", "e", "E", "em", "e5", "E-3", "+", "-", "pt", "mm", "cm", "deg", "rad", "fr", "%", "x", "9223372036854775807", "9223372036854775808", "7fffffffffffffff", "8000000000000000", "1e400",
	" ", " ", "  ", "\t", "\n", "\r\n", "\u00a0", "\u2028", "\x0b", "\ufeff", "\u200b", "\x00",
	"\"", "\"", "\\", "\\\"", "//", "/*", "*/", "`", "```", "<", ">", "<a", "<a>", "=", "!", "*", "/", "\u2212", ",", ";", ":", "=>", "==", "!=", "(", ")", "(", ")", "{", "}", "@", "#", "~", "'", "?", "&", "|", "^", "[", "]", "$",
}

var mathPieces = []string{
	"a", "b", "x", "ab", "alpha", "a1", "é", "漢", "α", "π", "∑", "𝔸", "e\u0301", "\u0301", "ª", "1", "23", "4.5", "٣", "½", "²", ".", "..", "...", ",", ";", "_", "^", "/", "'", "!", "&", "-", "*", "~", "√", "∛", "∜", "+", "=", ":", "<", ">", "|", "[", "]", "(", ")", "{", "}", "?", "@", "%", "`",
	" ", " ", "\n", "\u00a0", "\t", "\r\n", "\\", "\\ ", "\\u{41}", "\\u{", "\"", "\"s\"", "//", "/*", "*/", "->", "=>", "<=", ">=", "!=", ":=", "::=", "<-", "-->", "<==>", "|->", "~>", "[|", "||", ".a", ".ab", "ab.c", "⟨", "⟩", "⌈", "#", "$",
	"ab(", "f", "ab(", "a.b(", "(", ")", ",", ";", "..", "..", "a:", "ab:", "_:", "a-b:", "x_1:", "a-b", ":",
}

// tokenFocus draws several pieces which make one token, or nearly so.
func tokenFocus(v vgen.T, mode string) string {
	some := func(max int, pieces ...string) string {
		out := ""
		for n := v.N(max + 1); n > 0; n-- {
			out += v.Pick(pieces...)
		}
		return out
	}
	kinds := []string{"comment", "label", "raw", "link", "ref", "escape", "number", "string"}
	switch kinds[v.N(len(kinds))] {
	case "link":
		return v.Pick("http://", "https://") + some(10, "a", "b/", "1", "(", ")", "[", "]", "(", ")", "[", "]", ".", ",", "!", "?", "'", ";", ":", "#", "*", "_", "~", "-", "=", "@", "%", "&", "+", "$", "/", "é", " ", "\"", "{", "}", "\\", "|", "^", "<", ">")
	case "ref":
		return "@" + some(8, "a", "1", "é", "-", "_", ".", ":", ".", ":", "[", "!", "\u0301")
	case "label":
		return "<" + some(6, "a", "1", "é", "-", "_", ".", ":", "=") + v.Pick(">", ">", ">", " ", "")
	case "raw":
		ticks := v.Pick("`", "`", "```", "````", "``")
		return ticks + some(7, "a", "rs", "1", " ", " ", "\n", "\r\n", "\r", "\u2028", "\x0b", "\t", "\u2003", "`", "é", "-", "_", "\\", "  ") + v.Pick(ticks, ticks, ticks, "")
	case "comment":
		if mode != "math" && v.Chance(1, 3) {
			return "//" + some(4, "a", " ", "*/", "/*", "\\", "//", "é") + v.Pick("\n", "\r\n", "\u2028", "\x0b", "")
		}
		return "/*" + some(7, "/*", "*/", "*", "/", "a", " ", "\n", "//", "/**/") + v.Pick("*/", "*/", "")
	case "escape":
		return "\\u" + v.Pick("{", "{", "{", "") + some(7, "0", "1", "f", "F", "d", "8", "10", "g", "é", "-", " ") + v.Pick("}", "}", "")
	case "number":
		return some(3, "1", "0", "9", "0x", "0b", "0o") + some(6, "1", "0", "7", "a", "f", "e", "E", ".", "..", "+", "-", "_", "pt", "%", "em", "fr", "b", "o", "x")
	default:
		return "\"" + some(6, "a", "\\", "\\", "\\\"", "\\n", "\\u{", "}", "\n", "é", "41", " ") + v.Pick("\"", "\"", "")
	}
}

func tokenText(v vgen.T, mode string) tokenCase {
	pieces := map[string][]string{"markup": markupPieces, "code": codePieces, "math": mathPieces}[mode]
	out := &strings.Builder{}
	for i, n := 0, 1+v.N(8)+v.N(10); i < n; i++ {
		s := pieces[v.N(len(pieces))]
		if s == "#" || s == "$" || mode == "code" && (s == "[" || s == "]") {
			// The rest does not count: rarely.
			if !v.Chance(1, 6) {
				s = "a"
			}
		}
		if mode != "math" && v.Chance(1, 25) {
			s = v.Char()
			if r := []rune(s)[0]; unicode.In(r, unicode.L, unicode.N, unicode.M, unicode.Other_ID_Start, unicode.Other_ID_Continue) && r > 0x24f {
				s = "b" // tables of letters may be of different versions.
			}
		}
		if v.Chance(1, 15) {
			s = tokenFocus(v, mode)
		}
		if mode == "math" && v.Chance(1, 10) {
			s = v.Pick("ab(", "a.b(", "ab(a,", "ab(a;", "(", ",", ";") + v.Pick("", "", " ", "/* c */", "// c\n", "\n") +
				v.Pick("..", "..", "...", "a", "ab", "_", "x-y", "_1") + v.Pick("", ":", ":=", "::=", " ", "/* c */", "// c\n", ".", "\n", "a", "ab(", "\\ ")
		}
		out.WriteString(s)
	}
	return tokenCase{out.String(), mode}
}

func tokenProp(mode string, weight int) vh.Prop[tokenCase] {
	return vh.Prop[tokenCase]{
		Name: mode + " tokens", Weight: weight,
		Gen:   func(rt *rapid.T) tokenCase { return tokenText(vgen.T{R: rt}, mode) },
		Check: checkTokens,
	}
}

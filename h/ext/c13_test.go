package ext

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

type literalCase struct {
	Text string
	Want []string
}

// literal is the text of a literal and what it decodes to.
type literal struct {
	text, want string
	class      string
}

const digitSet = "0123456789"

func digits(v vgen.T, set string, max int) string {
	s := ""
	for i, n := 0, 1+v.N(max); i < n; i++ {
		s += string(set[v.N(len(set))])
	}
	return s
}

// decimal is the double nearest to a decimal number.
func decimal(s string) string {
	mant, exp := s, 0
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		mant = s[:i]
		exp, _ = strconv.Atoi(s[i+1:])
	}
	frac := ""
	if i := strings.Index(mant, "."); i >= 0 {
		mant, frac = mant[:i], mant[i+1:]
	}
	num, _ := new(big.Int).SetString("0"+mant+frac, 10)
	r := new(big.Rat).SetInt(num)
	ten := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(exp-len(frac)))), nil)
	if exp-len(frac) >= 0 {
		r.Mul(r, new(big.Rat).SetInt(ten))
	} else {
		r.Quo(r, new(big.Rat).SetInt(ten))
	}
	x, _ := r.Float64()
	return strconv.FormatFloat(x, 'g', -1, 64)
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func intLiteral(v vgen.T) literal {
	bases := []struct {
		prefix, set string
		base        int
	}{{"", digitSet, 10}, {"0x", "0123456789abcdefABCDEF", 16}, {"0o", "01234567", 8}, {"0b", "01", 2}}
	b := bases[v.W(4, 2, 2, 2)]
	x := new(big.Int)
	var s string
	switch v.W(6, 2, 2) {
	case 0:
		max := map[int]int{10: 20, 16: 17, 8: 22, 2: 66}[b.base]
		s = digits(v, b.set, max)
		x.SetString(s, b.base)
	case 1:
		// Around the powers of two.
		x.Lsh(big.NewInt(1), uint(v.N(64)))
		x.Add(x, big.NewInt(int64(v.N(5)-2)))
		if x.Sign() < 0 {
			x.SetInt64(0)
		}
		s = x.Text(b.base)
	default:
		x.SetInt64(math.MaxInt64 - int64(v.N(3)))
		s = strings.Repeat("0", v.N(3)) + x.Text(b.base)
	}
	text := b.prefix + s
	if !x.IsInt64() {
		if b.base == 10 {
			return literal{"1", "int 1", "int"}
		}
		return literal{text, "error", "int too large"}
	}
	return literal{text, "int " + x.String(), "int base " + strconv.Itoa(b.base)}
}

// floatText draws a decimal number which has a dot or an exponent.
func floatText(v vgen.T) string {
	exp := func() string {
		e := v.Pick("e", "E") + v.Pick("", "+", "-")
		switch v.W(4, 2, 1) {
		case 0:
			return e + strconv.Itoa(v.N(30))
		case 1:
			return e + strconv.Itoa(280+v.N(60))
		}
		return e + "0" + strconv.Itoa(v.N(12))
	}
	switch v.N(5) {
	case 0:
		return digits(v, digitSet, 18) + "." + digits(v, digitSet, 20)
	case 1:
		return digits(v, digitSet, 5) + exp()
	case 2:
		return digits(v, digitSet, 5) + "." + digits(v, digitSet, 8) + exp()
	case 3:
		return "." + digits(v, digitSet, 6)
	default:
		return "." + digits(v, digitSet, 4) + exp()
	}
}

func floatLiteral(v vgen.T) literal {
	s := floatText(v)
	return literal{s, "float " + decimal(s), "float"}
}

func numericLiteral(v vgen.T) literal {
	unit := v.Pick("pt", "mm", "cm", "in", "deg", "rad", "em", "fr", "%")
	s := digits(v, digitSet, 6)
	if v.Chance(2, 3) {
		s = floatText(v)
	}
	return literal{s + unit, "numeric " + decimal(s) + " " + unit, "numeric " + unit}
}

func (v2 gen) char() rune {
	v := vgen.T(v2)
	for {
		r := []rune(v.Char())[0]
		if r != '"' && r != '\\' {
			return r
		}
	}
}

type gen vgen.T

func strLiteral(v vgen.T) literal {
	text, val := "", ""
	class := "str"
	for i, n := 0, v.N(8); i < n; i++ {
		switch v.W(5, 3, 3, 3, 1, 1) {
		case 0:
			s := v.Pick("a", "bc ", "é", "漢", "'", "//", "/*", "n", "u{41}", "#", "]", "{", ")", "\t", "\n", "\r\n", "\u00a0", "👩‍👩‍👧", "`", "u", "{", "}", "41")
			text, val = text+s, val+s
		case 1:
			r := string(gen(v).char())
			text, val = text+r, val+r
		case 2:
			k := v.N(5)
			text += []string{`\\`, `\"`, `\n`, `\r`, `\t`}[k]
			val += []string{`\`, `"`, "\n", "\r", "\t"}[k]
			class = "str with escapes"
		case 3:
			r := anyRune.Draw(v.R, "codepoint")
			hex := strconv.FormatInt(int64(r), 16)
			if v.Chance(1, 3) {
				hex = strings.ToUpper(hex)
			}
			hex = strings.Repeat("0", v.N(3)) + hex
			text, val = text+`\u{`+hex+`}`, val+string(r)
			class = "str with codepoints"
		case 4:
			// What is no escape sequence stands for itself.
			s := v.Pick(`\a`, `\é`, `\#`, `\'`, `\0`, `\ `, `\u`, `\u0041`, `\x41`, `\N`, `\{`)
			if s == `\u` {
				s += "x"
			}
			text, val = text+s, val+s
		default:
			s := v.Pick(`\u{d800}`, `\u{110000}`, `\u{}`, `\u{ffffffff}`, `\u{123456789abc}`)
			text, val = text+s, val+s
		}
	}
	return literal{`"` + text + `"`, fmt.Sprintf("str %q", val), class}
}

var anyRune = rapid.Rune()

// idents of several scripts: characters which start and which continue a word.
func identText(v vgen.T) string {
	starts := []rune("abzAZ_éßñαωЖя漢字あアאبहกꙮℵªµ")
	conts := []rune("aZ09_-éωя漢ァ़ิ٣\u0301\u00b7")
	s := string(starts[v.N(len(starts))])
	for i, n := 0, v.N(6); i < n; i++ {
		s += string(conts[v.N(len(conts))])
	}
	return s
}

func identLiteral(v vgen.T) literal {
	s := identText(v)
	if v.Chance(1, 4) {
		// Almost a keyword.
		k := keywords[v.N(len(keywords))]
		s = v.Pick(k+"s", k+"_", k+"-x", "_"+k, strings.ToUpper(k[:1])+k[1:], k+"1", k+"é", k[:len(k)-1]+"_", k+k)
	}
	for _, k := range keywords {
		if s == k {
			s += "_"
		}
	}
	if s == "_" {
		s = "__"
	}
	return literal{s, fmt.Sprintf("ident %q", s), "ident"}
}

// codeLiteral draws a literal of code.
func codeLiteral(v vgen.T) literal {
	switch v.W(4, 3, 4, 4, 3, 1) {
	case 0:
		return intLiteral(v)
	case 1:
		return floatLiteral(v)
	case 2:
		return numericLiteral(v)
	case 3:
		return strLiteral(v)
	case 4:
		return identLiteral(v)
	default:
		return []literal{{"true", "bool true", "bool"}, {"false", "bool false", "bool"}, {"none", "none", "none"}, {"auto", "auto", "auto"}}[v.N(4)]
	}
}

func checkLiterals(c literalCase, info *vh.Info) error {
	root := syntax.Parse(c.Text)
	got := syntax.VerifValues(root)
	info.NonTrivial = len(c.Text) > 6
	if len(c.Want) > 0 {
		info.Label(true, strings.Fields(c.Want[0])[0])
	}
	if strings.Join(got, "\n") != strings.Join(c.Want, "\n") {
		return fmt.Errorf("%q decodes to %q, not to %q", c.Text, got, c.Want)
	}
	return nil
}

// markupLiteral draws an element of markup which stands for a value. The second
// result says that it has to start a line.
func markupLiteral(v vgen.T) (l literal, line bool) {
	switch v.N(8) {
	case 0:
		switch v.N(3) {
		case 0:
			r := anyRune.Draw(v.R, "codepoint")
			return literal{fmt.Sprintf("\\u{%x}", r), fmt.Sprintf("escape %U", r), "escape"}, false
		case 1:
			r := escapable[v.N(len(escapable))]
			if r == 'u' {
				r = 'v'
			}
			return literal{"\\" + string(r), fmt.Sprintf("escape %U", r), "escape"}, false
		default:
			r := []rune(v.Char())[0]
			if strings.TrimSpace(string(r)) == "" || r == 'u' || vgen.IsNewline(r) {
				r = 'k'
			}
			return literal{"\\" + string(r), fmt.Sprintf("escape %U", r), "escape"}, false
		}
	case 1:
		k := v.N(5)
		return literal{[]string{"...", "~", "--", "---", "-?"}[k], []string{"shorthand U+2026", "shorthand U+00A0", "shorthand U+2013", "shorthand U+2014", "shorthand U+00AD"}[k], "shorthand"}, false
	case 2:
		if v.Chance(1, 2) {
			return literal{"'", "quote false", "quote"}, false
		}
		return literal{"\"", "quote true", "quote"}, false
	case 3:
		url := v.Pick("http://", "https://")
		var part func(d int) string
		part = func(d int) string {
			s := ""
			for i, n := 0, 1+v.N(4); i < n; i++ {
				switch {
				case d > 0 && v.Chance(1, 5):
					if v.Chance(1, 2) {
						s += "(" + part(d-1) + ")"
					} else {
						s += "[" + part(d-1) + "]"
					}
				default:
					s += v.Pick("a", "x.y", "/", "b-c", "_", "~", "*", "#f", "?q=1&r", "%20", "'", "!", ",", ";", ":80", "@", "+", "=")
				}
			}
			return s
		}
		url += part(2) + v.Pick("a", "/", "9", "_", "=", "*", "~", "(x)", "[y]", "-")
		return literal{url + v.Pick("", "", ".", ",", "!?", ":", ";", "..", ".;!"), fmt.Sprintf("link %q", url), "link"}, false
	case 4:
		name := identText(v)
		if v.Chance(1, 2) {
			name = v.Pick("sec:", "1", "a.b:", "-") + name
		}
		return literal{"<" + name + ">", fmt.Sprintf("label %q", name), "label"}, false
	case 5:
		name := identText(v)
		if v.Chance(1, 2) {
			name = v.Pick("sec:", "a.b:") + name
		}
		return literal{"@" + name + v.Pick("", "", ".", ":", "..", ".:", ":.", "::", ".:.", ":.:."), fmt.Sprintf("ref %q", name), "ref"}, false
	case 6:
		n := 1 + v.N(12)
		return literal{strings.Repeat("=", n) + " h", fmt.Sprintf("heading %d", n), "heading"}, true
	default:
		if v.Chance(1, 4) {
			return literal{"+ h", "enum", "enum"}, true
		}
		s := digits(v, digitSet, 19)
		x, _ := new(big.Int).SetString(s, 10)
		return literal{s + ". h", "enum " + x.String(), "enum"}, true
	}
}

var escapable = []rune("#*_`$<>@\\/=-+~'\"[](){}:;,.!?ah0é漢&%")

func TestV_C13(t *testing.T) {
	vh.Run(t, vh.Prop[literalCase]{
		Name: "code", Weight: 65,
		Gen: func(rt *rapid.T) literalCase {
			v := vgen.T{R: rt}
			l := codeLiteral(v)
			if l.want == "error" {
				return literalCase{"#{ " + l.text + " }", []string{"error"}}
			}
			word := l.text[0] != '"'
			switch v.N(10) {
			case 0:
				return literalCase{"#{" + l.text + "}", []string{l.want}}
			case 1:
				return literalCase{"#(" + l.text + ",)", []string{l.want}}
			case 2:
				m := codeLiteral(v)
				if m.want == "error" || strings.HasPrefix(m.want, "ident") {
					m = literal{"1", "int 1", ""}
				}
				return literalCase{"#f(" + l.text + ", k: " + m.text + ")", []string{`ident "f"`, l.want, `ident "k"`, m.want}}
			case 3:
				return literalCase{"#{ " + l.text + "+1.5 }", []string{l.want, "float 1.5"}}
			case 4:
				return literalCase{"#f(.." + l.text + ")", []string{`ident "f"`, l.want}}
			case 5:
				return literalCase{"#{ " + l.text + ".len }", []string{l.want, `ident "len"`}}
			case 6:
				if word && l.class == "ident" {
					return literalCase{"#{ -" + l.text + " }", []string{l.want}}
				}
				return literalCase{"#{ 2 -" + l.text + " }", []string{"int 2", l.want}}
			case 7:
				return literalCase{"#" + l.text + "; x", []string{l.want}}
			case 8:
				return literalCase{"#" + l.text + " x", []string{l.want}}
			default:
				m := codeLiteral(v)
				if m.want == "error" {
					m = literal{"none", "none", ""}
				}
				return literalCase{"#{\n  " + l.text + "\n  " + m.text + "\n}", []string{l.want, m.want}}
			}
		},
		Check: checkLiterals,
	})
	vh.Run(t, vh.Prop[literalCase]{
		Name: "markup", Weight: 35,
		Gen: func(rt *rapid.T) literalCase {
			v := vgen.T{R: rt}
			c := literalCase{}
			lines := []string{}
			for i, n := 0, 1+v.N(3); i < n; i++ {
				l, line := markupLiteral(v)
				c.Want = append(c.Want, l.want)
				if !line {
					l.text = v.Pick("x ", "k\u2009", "( ") + l.text + v.Pick(" y", "", " z")
				}
				lines = append(lines, l.text)
			}
			c.Text = strings.Join(lines, v.Pick("\n", "\n\n", "\r\n"))
			return c
		},
		Check: checkLiterals,
	})
	vh.Run(t, tokenProp("code", 25))
	vh.Run(t, tokenProp("markup", 15))
}

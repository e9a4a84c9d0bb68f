package ext

import (
	"fmt"
	"html"
	"regexp"
	"strings"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

// fixedClass holds the class of the kinds which are highlighted the same
// everywhere.
var fixedClass = map[syntax.SyntaxKind]string{}

func init() {
	for class, ks := range map[string][]syntax.SyntaxKind{
		"comment":    {syntax.SyntaxKindShebang, syntax.SyntaxKindLineComment, syntax.SyntaxKindBlockComment},
		"punct":      {syntax.SyntaxKindLeftBrace, syntax.SyntaxKindRightBrace, syntax.SyntaxKindLeftBracket, syntax.SyntaxKindRightBracket, syntax.SyntaxKindLeftParen, syntax.SyntaxKindRightParen, syntax.SyntaxKindComma, syntax.SyntaxKindSemicolon, syntax.SyntaxKindColon, syntax.SyntaxKindDot},
		"escape":     {syntax.SyntaxKindLinebreak, syntax.SyntaxKindEscape, syntax.SyntaxKindShorthand, syntax.SyntaxKindMathShorthand},
		"strong":     {syntax.SyntaxKindStrong},
		"emph":       {syntax.SyntaxKindEmph},
		"link":       {syntax.SyntaxKindLink},
		"raw":        {syntax.SyntaxKindRaw},
		"label":      {syntax.SyntaxKindLabel},
		"ref":        {syntax.SyntaxKindRef},
		"heading":    {syntax.SyntaxKindHeading},
		"marker":     {syntax.SyntaxKindListMarker, syntax.SyntaxKindEnumMarker, syntax.SyntaxKindTermMarker},
		"math-delim": {syntax.SyntaxKindDollar},
		"math-op":    {syntax.SyntaxKindMathAlignPoint, syntax.SyntaxKindHat, syntax.SyntaxKindPrime, syntax.SyntaxKindRoot},
		"key": {syntax.SyntaxKindNot, syntax.SyntaxKindAnd, syntax.SyntaxKindOr, syntax.SyntaxKindNone, syntax.SyntaxKindAuto, syntax.SyntaxKindLet, syntax.SyntaxKindSet, syntax.SyntaxKindShow,
			syntax.SyntaxKindContext, syntax.SyntaxKindIf, syntax.SyntaxKindElse, syntax.SyntaxKindFor, syntax.SyntaxKindIn, syntax.SyntaxKindWhile, syntax.SyntaxKindBreak, syntax.SyntaxKindContinue,
			syntax.SyntaxKindReturn, syntax.SyntaxKindImport, syntax.SyntaxKindInclude, syntax.SyntaxKindAs, syntax.SyntaxKindBool},
		"op": {syntax.SyntaxKindStar, syntax.SyntaxKindPlus, syntax.SyntaxKindMinus, syntax.SyntaxKindSlash, syntax.SyntaxKindEq, syntax.SyntaxKindEqEq, syntax.SyntaxKindExclEq, syntax.SyntaxKindLt, syntax.SyntaxKindLtEq,
			syntax.SyntaxKindGt, syntax.SyntaxKindGtEq, syntax.SyntaxKindPlusEq, syntax.SyntaxKindHyphEq, syntax.SyntaxKindStarEq, syntax.SyntaxKindSlashEq, syntax.SyntaxKindDots, syntax.SyntaxKindArrow},
		"num": {syntax.SyntaxKindInt, syntax.SyntaxKindFloat, syntax.SyntaxKindNumeric},
		"str": {syntax.SyntaxKindStr},
	} {
		for _, k := range ks {
			fixedClass[k] = class
		}
	}
}

// What can follow a hash.
var afterHash = kinds(syntax.SyntaxKindIdent, syntax.SyntaxKindNone, syntax.SyntaxKindAuto, syntax.SyntaxKindBool, syntax.SyntaxKindInt, syntax.SyntaxKindFloat, syntax.SyntaxKindNumeric, syntax.SyntaxKindStr,
	syntax.SyntaxKindCodeBlock, syntax.SyntaxKindContentBlock, syntax.SyntaxKindArray, syntax.SyntaxKindDict, syntax.SyntaxKindParenthesized, syntax.SyntaxKindFieldAccess, syntax.SyntaxKindFuncCall,
	syntax.SyntaxKindLetBinding, syntax.SyntaxKindSetRule, syntax.SyntaxKindShowRule, syntax.SyntaxKindContextual, syntax.SyntaxKindConditional, syntax.SyntaxKindWhileLoop, syntax.SyntaxKindForLoop,
	syntax.SyntaxKindModuleImport, syntax.SyntaxKindModuleInclude, syntax.SyntaxKindLoopBreak, syntax.SyntaxKindLoopContinue, syntax.SyntaxKindFuncReturn)

// painter says how each node of a tree is highlighted.
type painter struct {
	ps    []place
	order []int // numbers of the tokens which are not trivia
	rank  []int // position of each node in order: of the first token at or after it
}

func paint(root *syntax.SyntaxNode) *painter {
	p := &painter{ps: places(root)}
	for i := range p.ps {
		p.rank = append(p.rank, len(p.order))
		if p.ps[i].token() {
			p.order = append(p.order, i)
		}
	}
	return p
}

func (p *painter) kind(i int) syntax.SyntaxKind { return p.ps[i].node.SyntaxKind() }

// in reports whether the parent of the node is of the kind.
func (p *painter) in(i int, kinds ...syntax.SyntaxKind) bool {
	for _, k := range kinds {
		if p.ps[i].parent >= 0 && p.kind(p.ps[i].parent) == k {
			return true
		}
	}
	return false
}

// before is the last token before the node, or -1.
func (p *painter) before(i int) int {
	if p.rank[i] == 0 {
		return -1
	}
	return p.order[p.rank[i]-1]
}

// after is the first token after the node, or -1.
func (p *painter) after(i int) int {
	last := p.ps[i].last
	r := p.rank[last]
	if p.ps[last].token() {
		r++
	}
	if r >= len(p.order) {
		return -1
	}
	return p.order[r]
}

// next is the next sibling which is not trivia, or -1.
func (p *painter) next(i int) int {
	if p.ps[i].parent < 0 {
		return -1
	}
	for _, j := range p.ps[p.ps[i].parent].children {
		if j > i && !p.ps[j].trivia() {
			return j
		}
	}
	return -1
}

func (p *painter) class(i int) string {
	switch k := p.kind(i); k {
	case syntax.SyntaxKindMarkup:
		// The term of a term list.
		if n := p.next(i); p.in(i, syntax.SyntaxKindTermItem) && n >= 0 && p.kind(n) == syntax.SyntaxKindColon {
			return "term"
		}
	case syntax.SyntaxKindStar:
		if p.in(i, syntax.SyntaxKindStrong) {
			return ""
		}
	case syntax.SyntaxKindHash:
		// As what the hash introduces starts.
		if n := p.next(i); n >= 0 && afterHash[p.kind(n)] {
			for j := n; j <= p.ps[n].last; j++ {
				if p.ps[j].token() {
					return p.class(j)
				}
			}
		}
		return ""
	case syntax.SyntaxKindIdent, syntax.SyntaxKindMathIdent:
		return p.ident(i)
	case syntax.SyntaxKindUnderscore:
		if p.in(i, syntax.SyntaxKindMathAttach) {
			return "math-op"
		}
		return ""
	case syntax.SyntaxKindSlash:
		if p.in(i, syntax.SyntaxKindMathFrac) {
			return "math-op"
		}
	}
	return fixedClass[p.kind(i)]
}

func (p *painter) ident(i int) string {
	next, prev := p.after(i), p.before(i)
	// A function: its arguments follow without space.
	if next >= 0 && p.ps[next].start == p.ps[i].end {
		if p.kind(next) == syntax.SyntaxKindLeftParen && p.in(next, syntax.SyntaxKindArgs, syntax.SyntaxKindParams) {
			return "func"
		}
		if p.kind(next) == syntax.SyntaxKindLeftBracket && p.in(next, syntax.SyntaxKindContentBlock) {
			return "func"
		}
	}
	if p.kind(i) == syntax.SyntaxKindMathIdent {
		return "pol"
	}
	top := i
	for p.in(top, syntax.SyntaxKindFieldAccess) {
		top = p.ps[top].parent
	}
	// The selector, or the transformation, of a show rule.
	if p.in(top, syntax.SyntaxKindShowRule) {
		if next >= 0 && p.kind(next) == syntax.SyntaxKindColon || prev >= 0 && p.kind(prev) == syntax.SyntaxKindColon {
			return "func"
		}
	}
	// A variable within markup.
	if b := p.before(top); b >= 0 && p.kind(b) == syntax.SyntaxKindHash {
		return "pol"
	}
	// A field is as what it is a field of.
	if prev >= 0 && p.kind(prev) == syntax.SyntaxKindDot {
		if b := p.before(prev); b >= 0 && (p.kind(b) == syntax.SyntaxKindIdent || p.kind(b) == syntax.SyntaxKindMathIdent) {
			return p.ident(b)
		}
	}
	return ""
}

var entities = strings.NewReplacer("<", "&lt;", ">", "&gt;", "&", "&amp;", "'", "&#39;", "\"", "&quot;")

func (p *painter) html() string {
	out := &strings.Builder{}
	var walk func(i int)
	walk = func(i int) {
		class := p.class(i)
		if class != "" {
			out.WriteString(`<span class="typ-` + class + `">`)
		}
		switch r := p.ps[i].node.Repr.(type) {
		case *syntax.LeafNode:
			out.WriteString(entities.Replace(r.Text))
		case *syntax.ErrorNode:
			out.WriteString(entities.Replace(r.Text))
		}
		for _, c := range p.ps[i].children {
			walk(c)
		}
		if class != "" {
			out.WriteString("</span>")
		}
	}
	out.WriteString("<code>")
	walk(0)
	out.WriteString("</code>")
	return out.String()
}

var tag = regexp.MustCompile(`<[^>]*>`)

func TestV_C25(t *testing.T) {
	check := func(c textCase, info *vh.Info) error {
		root := syntax.Parse(c.Text)
		got := syntax.VerifHTML(root)
		// A browser shows the source text.
		if back := html.UnescapeString(tag.ReplaceAllString(got, "")); back != c.Text {
			return fmt.Errorf("%q reads %q, not %q", got, back, c.Text)
		}
		// Elements nest.
		depth := 0
		for _, t := range tag.FindAllString(got, -1) {
			switch {
			case t == "</span>":
				depth--
			case strings.HasPrefix(t, `<span class="typ-`) && strings.HasSuffix(t, `">`):
				depth++
			case t != "<code>" && t != "</code>":
				return fmt.Errorf("%q has the tag %v", got, t)
			}
			if depth < 0 {
				return fmt.Errorf("%q closes more than it opens", got)
			}
		}
		if depth != 0 || !strings.HasPrefix(got, "<code>") || !strings.HasSuffix(got, "</code>") || strings.Count(got, "code>") != 2 {
			return fmt.Errorf("%q does not nest", got)
		}
		want := paint(root).html()
		if got != want {
			return fmt.Errorf("text %q\n is %v\nnot %v", c.Text, got, want)
		}
		for _, class := range []string{"term", "func", "pol", "key", "heading", "comment", "str", "math-op", "math-delim"} {
			info.Label(strings.Contains(want, `"typ-`+class+`"`), class)
		}
		info.NonTrivial = strings.Count(want, "<span") > 2
		return nil
	}
	vh.Run(t, vh.Prop[textCase]{
		Name: "html", Weight: 95,
		Gen: func(rt *rapid.T) textCase {
			v := vgen.T{R: rt}
			if v.Chance(1, 5) {
				return textCase{"#" + v.CodeBlock(2).Text()}
			}
			if v.Chance(1, 6) {
				return textCase{v.Equation(1 + v.N(3)).Text()}
			}
			if v.Chance(1, 4) {
				// Calls, fields and show rules around names.
				out := ""
				for i, n := 0, 1+v.N(8); i < n; i++ {
					out += v.Pick("#", "show ", "#show ", "set ", "a", "b", "f", ".", ".len", "(", ")", "[", "]", ":", ": ", " ", "(x)", "[y]", ".a.b", "let ", " = ", "/**/", "\n", ",", "=>", "{", "}", "..")
				}
				return textCase{out}
			}
			return textCase{v.Text()}
		},
		Check: check,
	})
	vh.Run(t, vh.Prop[paintCase]{
		Name: "work", Weight: 5,
		Gen: func(rt *rapid.T) paintCase {
			v := vgen.T{R: rt}
			c := paintCase{N: 100 + v.N(100), Unit: v.Document(1).Text() + "\n\n"}
			if v.Chance(1, 2) {
				c.Unit = v.Soup(4) + "\n\n"
			}
			return c
		},
		Check: func(c paintCase, info *vh.Info) error {
			info.NonTrivial = len(c.Unit) > 4
			text := strings.Repeat(c.Unit, c.N)
			root := syntax.Parse(text)
			parsed := vh.Allocated(func() { syntax.Parse(text) })
			used := vh.Allocated(func() { syntax.VerifHTML(root) })
			if used > 40*parsed+uint64(200*len(text))+200000 {
				return fmt.Errorf("highlighting %v bytes allocates %v bytes, parsing %v", len(text), used, parsed)
			}
			return nil
		},
	})
}

type paintCase struct {
	Unit string
	N    int
}

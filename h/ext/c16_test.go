package ext

import (
	"fmt"
	"strconv"
	"strings"
	"testing"
	"unicode"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

// view prints what the typed view of a generated tree should expose: the parts
// of each construct by their position, leaving out trivia.
type view struct {
	out   strings.Builder
	depth int
}

func trivia(k syntax.SyntaxKind) bool {
	switch k {
	case syntax.SyntaxKindSpace, syntax.SyntaxKindParbreak, syntax.SyntaxKindLineComment, syntax.SyntaxKindBlockComment, syntax.SyntaxKindShebang:
		return true
	}
	return false
}

// parts are the children of a node in code which are no trivia.
func parts(n *vgen.N) []*vgen.N {
	var ps []*vgen.N
	for _, c := range n.C {
		if !trivia(c.K) && c.K != syntax.SyntaxKindHash {
			ps = append(ps, c)
		}
	}
	return ps
}

// items are the parts of a delimited list.
func listItems(n *vgen.N) []*vgen.N {
	var ps []*vgen.N
	for _, c := range parts(n) {
		switch c.K {
		case syntax.SyntaxKindLeftParen, syntax.SyntaxKindRightParen, syntax.SyntaxKindComma, syntax.SyntaxKindColon, syntax.SyntaxKindSemicolon:
		default:
			ps = append(ps, c)
		}
	}
	return ps
}

var exprNames = map[syntax.SyntaxKind]string{
	syntax.SyntaxKindText: "Text", syntax.SyntaxKindSpace: "Space", syntax.SyntaxKindLinebreak: "Linebreak", syntax.SyntaxKindParbreak: "Parbreak",
	syntax.SyntaxKindEscape: "Escape", syntax.SyntaxKindShorthand: "Shorthand", syntax.SyntaxKindSmartQuote: "SmartQuote", syntax.SyntaxKindStrong: "Strong",
	syntax.SyntaxKindEmph: "Emph", syntax.SyntaxKindRaw: "Raw", syntax.SyntaxKindLink: "Link", syntax.SyntaxKindLabel: "Label", syntax.SyntaxKindRef: "Ref",
	syntax.SyntaxKindHeading: "Heading", syntax.SyntaxKindListItem: "ListItem", syntax.SyntaxKindEnumItem: "EnumItem", syntax.SyntaxKindTermItem: "TermItem",
	syntax.SyntaxKindIdent: "Ident", syntax.SyntaxKindNone: "None", syntax.SyntaxKindAuto: "Auto", syntax.SyntaxKindBool: "Bool", syntax.SyntaxKindInt: "Int",
	syntax.SyntaxKindFloat: "Float", syntax.SyntaxKindNumeric: "Numeric", syntax.SyntaxKindStr: "Str", syntax.SyntaxKindCodeBlock: "CodeBlock",
	syntax.SyntaxKindContentBlock: "ContentBlock", syntax.SyntaxKindParenthesized: "Parenthesized", syntax.SyntaxKindArray: "Array", syntax.SyntaxKindDict: "Dict",
	syntax.SyntaxKindUnary: "Unary", syntax.SyntaxKindBinary: "Binary", syntax.SyntaxKindFieldAccess: "FieldAccess", syntax.SyntaxKindFuncCall: "FuncCall",
	syntax.SyntaxKindClosure: "Closure", syntax.SyntaxKindLetBinding: "LetBinding", syntax.SyntaxKindDestructAssignment: "DestructAssignment",
	syntax.SyntaxKindSetRule: "SetRule", syntax.SyntaxKindShowRule: "ShowRule", syntax.SyntaxKindContextual: "Contextual", syntax.SyntaxKindConditional: "Conditional",
	syntax.SyntaxKindWhileLoop: "WhileLoop", syntax.SyntaxKindForLoop: "ForLoop", syntax.SyntaxKindModuleImport: "ModuleImport",
	syntax.SyntaxKindModuleInclude: "ModuleInclude", syntax.SyntaxKindLoopBreak: "LoopBreak", syntax.SyntaxKindLoopContinue: "LoopContinue", syntax.SyntaxKindFuncReturn: "FuncReturn",
	syntax.SyntaxKindEquation: "Equation", syntax.SyntaxKindMath: "Math", syntax.SyntaxKindMathText: "MathText", syntax.SyntaxKindMathIdent: "MathIdent",
	syntax.SyntaxKindMathShorthand: "MathShorthand", syntax.SyntaxKindMathAlignPoint: "MathAlignPoint", syntax.SyntaxKindMathDelimited: "MathDelimited",
	syntax.SyntaxKindMathAttach: "MathAttach", syntax.SyntaxKindMathPrimes: "MathPrimes", syntax.SyntaxKindMathFrac: "MathFrac", syntax.SyntaxKindMathRoot: "MathRoot",
}

var literalNames = map[string]bool{"None": true, "Auto": true, "Bool": true, "Int": true, "Float": true, "Numeric": true, "Str": true}

var hashNames = map[string]bool{
	"Ident": true, "None": true, "Auto": true, "Bool": true, "Int": true, "Float": true, "Numeric": true, "Str": true, "CodeBlock": true, "ContentBlock": true,
	"Array": true, "Dict": true, "Parenthesized": true, "FieldAccess": true, "FuncCall": true, "LetBinding": true, "SetRule": true, "ShowRule": true,
	"Contextual": true, "Conditional": true, "WhileLoop": true, "ForLoop": true, "ModuleImport": true, "ModuleInclude": true, "LoopBreak": true, "LoopContinue": true, "FuncReturn": true,
}

func (v *view) line(role, name, text string) {
	v.out.WriteString(strings.Repeat(" ", v.depth))
	fmt.Fprintf(&v.out, "%s %s %q\n", role, name, text)
}

func (v *view) node(role string, n *vgen.N, name string) { v.line(role, name, n.Text()) }

func (v *view) in(f func()) {
	v.depth++
	f()
	v.depth--
}

func (v *view) markup(role string, n *vgen.N) {
	v.node(role, n, "Markup")
	v.in(func() {
		for i, c := range n.C {
			if c.K == syntax.SyntaxKindSpace && i > 0 {
				switch n.C[i-1].K {
				case syntax.SyntaxKindLetBinding, syntax.SyntaxKindSetRule, syntax.SyntaxKindShowRule, syntax.SyntaxKindModuleImport, syntax.SyntaxKindModuleInclude:
					continue
				}
			}
			if exprNames[c.K] != "" {
				v.expr("-", c)
			}
		}
	})
}

// bindings lists the names a pattern binds.
func bindings(n *vgen.N) []string {
	switch n.K {
	case syntax.SyntaxKindIdent:
		return []string{n.T}
	case syntax.SyntaxKindParenthesized:
		return bindings(parts(n)[1])
	case syntax.SyntaxKindDestructuring:
		var names []string
		for _, it := range listItems(n) {
			ps := parts(it)
			switch it.K {
			case syntax.SyntaxKindNamed:
				names = append(names, bindings(ps[2])...)
			case syntax.SyntaxKindSpread:
				if len(ps) > 1 {
					names = append(names, bindings(ps[1])...)
				}
			default:
				names = append(names, bindings(it)...)
			}
		}
		return names
	}
	return nil
}

func (v *view) pattern(role string, n *vgen.N) {
	switch n.K {
	case syntax.SyntaxKindUnderscore:
		v.node(role, n, "Placeholder")
	case syntax.SyntaxKindParenthesized:
		v.node(role, n, "Parenthesized")
		v.in(func() { v.pattern("pattern", parts(n)[1]) })
	case syntax.SyntaxKindDestructuring:
		v.node(role, n, "Destructuring")
		v.in(func() {
			for _, it := range listItems(n) {
				ps := parts(it)
				switch it.K {
				case syntax.SyntaxKindNamed:
					v.node("-", it, "Named")
					v.in(func() {
						v.expr("name", ps[0])
						v.pattern("pattern", ps[2])
					})
				case syntax.SyntaxKindSpread:
					v.node("-", it, "Spread")
					v.in(func() {
						if len(ps) > 1 {
							v.expr("sink", ps[1])
							if ps[1].K == syntax.SyntaxKindIdent {
								v.line("sink", "Name", ps[1].T)
							}
						}
					})
				default:
					v.pattern("-", it)
				}
			}
		})
	default:
		v.node(role, n, "Normal")
		v.in(func() { v.expr("expr", n) })
	}
}

func (v *view) named(n *vgen.N) {
	ps := parts(n)
	v.node("-", n, "Named")
	v.in(func() {
		v.expr("name", ps[0])
		v.expr("expr", ps[2])
	})
}

func (v *view) item(n *vgen.N) {
	switch n.K {
	case syntax.SyntaxKindNamed:
		v.named(n)
	case syntax.SyntaxKindSpread:
		v.node("-", n, "Spread")
		v.in(func() { v.expr("expr", parts(n)[1]) })
	case syntax.SyntaxKindKeyed:
		ps := parts(n)
		v.node("-", n, "Keyed")
		v.in(func() {
			v.expr("key", ps[0])
			v.expr("expr", ps[2])
		})
	default:
		v.expr("-", n)
	}
}

func (v *view) args(n *vgen.N) {
	v.node("args", n, "Args")
	v.in(func() {
		for _, it := range listItems(n) {
			v.item(it)
		}
		ps := parts(n)
		if k := len(ps); k > 1 && ps[k-1].K == syntax.SyntaxKindRightParen {
			v.line("trailing comma", fmt.Sprint(ps[k-2].K == syntax.SyntaxKindComma), "")
		}
	})
}

var binOps = map[string]string{
	"+": "5 left", "-": "5 left", "*": "6 left", "/": "6 left", "==": "4 left", "!=": "4 left", "<": "4 left", "<=": "4 left", ">": "4 left", ">=": "4 left",
	"in": "4 left", "not in": "4 left", "and": "3 left", "or": "2 left", "=": "1 right", "+=": "1 right", "-=": "1 right", "*=": "1 right", "/=": "1 right",
}

// bareNames are the names of modules which the generated strings name.
var bareNames = map[string]string{
	`"s"`: "s", `"x.typ"`: "x", `"a.typ"`: "a", `"@preview/x:1.2.3"`: "x", `"/lib/b.typ"`: "b",
	`"_x-1.typ"`: "_x-1", `"../é.typ"`: "é", `"a.b/c"`: "c", `"a b/漢字.typ"`: "漢字", `"\u{61}.typ"`: "a", `"if.typ"`: "if", `"@local/x-y:0.0.1"`: "x-y", `"@a-b/if:10.20.30"`: "if",
}

// badPackages are the generated strings which look like packages and name none.
var badPackages = map[string]bool{`"@preview/x:1.2"`: true, `"@preview/x"`: true, `"@x:1.2.3"`: true, `"@preview/x:1.2.3.4"`: true, `"@preview/a b:1.2.3"`: true}

func (v *view) math(role string, n *vgen.N) {
	v.node(role, n, "Math")
	v.in(func() { v.mathBody(n) })
}

func (v *view) mathBody(n *vgen.N) {
	k := len(n.C)
	v.line("deparenthesized", fmt.Sprint(k > 0 && n.C[0].K == syntax.SyntaxKindLeftParen && n.C[k-1].K == syntax.SyntaxKindRightParen), "")
	for _, c := range n.C {
		if exprNames[c.K] != "" {
			v.expr("-", c)
		}
	}
}

// body is the child which holds a sequence of math.
func mathChild(n *vgen.N) *vgen.N {
	for _, c := range n.C {
		if c.K == syntax.SyntaxKindMath {
			return c
		}
	}
	return nil
}

func (v *view) expr(role string, n *vgen.N) {
	name := exprNames[n.K]
	v.node(role, n, name)
	v.depth++
	defer func() { v.depth-- }()
	if literalNames[name] {
		v.line("is", "literal", "")
	}
	if hashNames[name] {
		v.line("is", "hash", "")
	}
	ps := parts(n)
	last := func() *vgen.N { return ps[len(ps)-1] }
	switch name {
	case "Text", "Link", "Ident":
		v.line("get", "", n.T)
	case "Label":
		v.line("get", "", n.T[1:len(n.T)-1])
	case "Strong", "Emph", "ContentBlock":
		v.markup("body", n.C[1])
	case "Raw":
		ticks := len(n.C[0].T)
		block := false
		for _, c := range n.C {
			if ticks >= 3 && c.K == syntax.SyntaxKindRawLang {
				v.line("lang", "", c.T)
			}
			if ticks >= 3 && c.K == syntax.SyntaxKindRawTrimmed && strings.ContainsFunc(c.T, vgen.IsNewline) {
				block = true
			}
		}
		v.line("block", fmt.Sprint(block), "")
		for _, c := range n.C {
			if c.K == syntax.SyntaxKindText {
				v.line("-", "", c.T)
			}
		}
	case "Ref":
		v.line("target", "", n.C[0].T[1:])
		if len(n.C) > 1 {
			v.expr("supplement", n.C[1])
		}
	case "Heading":
		v.line("depth", fmt.Sprint(len(n.C[0].T)), "")
		v.markup("body", n.C[len(n.C)-1])
	case "ListItem":
		v.markup("body", n.C[len(n.C)-1])
	case "EnumItem":
		if m := n.C[0].T; m != "+" {
			x, _ := strconv.ParseUint(m[:len(m)-1], 10, 64)
			v.line("number", fmt.Sprint(x), "")
		}
		v.markup("body", n.C[len(n.C)-1])
	case "TermItem":
		v.markup("term", ps[1])
		v.markup("description", last())
	case "Equation":
		// An equation is a block if there is space at both ends.
		block := n.C[1].K == syntax.SyntaxKindSpace && n.C[len(n.C)-2].K == syntax.SyntaxKindSpace
		v.line("block", fmt.Sprint(block), "")
		v.math("body", mathChild(n))
	case "Math":
		v.mathBody(n)
	case "MathText":
		r := []rune(n.T)
		if unicode.IsNumber(r[0]) {
			v.line("number", "", n.T)
		} else {
			v.line("character", "", n.T)
		}
	case "MathIdent":
		v.line("get", "", n.T)
	case "MathShorthand":
		v.line("get", "", string(mathChars[n.T]))
	case "MathDelimited":
		v.expr("open", ps[0])
		v.math("body", mathChild(n))
		v.expr("close", last())
	case "MathAttach":
		v.expr("base", ps[0])
		for i, p := range ps {
			if p.K == syntax.SyntaxKindUnderscore {
				v.expr("bottom", ps[i+1])
			}
		}
		for i, p := range ps {
			if p.K == syntax.SyntaxKindHat {
				v.expr("top", ps[i+1])
			}
		}
		if len(ps) > 1 && ps[1].K == syntax.SyntaxKindMathPrimes {
			v.expr("primes", ps[1])
		}
	case "MathPrimes":
		v.line("count", fmt.Sprint(len(n.C)), "")
	case "MathFrac":
		v.expr("num", ps[0])
		v.expr("denom", last())
	case "MathRoot":
		switch ps[0].T {
		case "∛":
			v.line("index", "3", "")
		case "∜":
			v.line("index", "4", "")
		}
		v.expr("radicand", ps[1])
	case "Bool":
		v.line("get", n.T, "")
	case "CodeBlock":
		body := ps[1]
		v.node("body", body, "Code")
		v.in(func() {
			for _, c := range parts(body) {
				if c.K != syntax.SyntaxKindSemicolon {
					v.expr("-", c)
				}
			}
		})
	case "Parenthesized":
		v.expr("expr", ps[1])
	case "Array", "Dict":
		for _, it := range listItems(n) {
			v.item(it)
		}
	case "Unary":
		op := ps[0].T
		prec := "7"
		if op == "not" {
			prec = "4"
		}
		v.line("op", strings.ReplaceAll(op, "\u2212", "-"), prec)
		v.expr("expr", ps[1])
	case "Binary":
		var op []string
		for _, p := range ps[1 : len(ps)-1] {
			op = append(op, strings.ReplaceAll(p.T, "\u2212", "-"))
		}
		o := strings.Join(op, " ")
		v.line("op", o, binOps[o])
		v.expr("lhs", ps[0])
		v.expr("rhs", last())
	case "FieldAccess":
		v.expr("target", ps[0])
		v.expr("field", ps[2])
	case "FuncCall":
		v.expr("callee", ps[0])
		v.args(ps[1])
	case "Closure":
		if ps[0].K == syntax.SyntaxKindIdent {
			v.expr("name", ps[0])
			ps = ps[1:]
		}
		v.node("params", ps[0], "Params")
		v.in(func() {
			for _, it := range listItems(ps[0]) {
				switch it.K {
				case syntax.SyntaxKindNamed:
					v.named(it)
				case syntax.SyntaxKindSpread:
					v.node("-", it, "Spread")
					v.in(func() {
						if ips := parts(it); len(ips) > 1 {
							v.line("sink", "Name", ips[1].T)
						}
					})
				default:
					v.pattern("-", it)
				}
			}
		})
		v.expr("body", ps[2])
	case "LetBinding":
		switch {
		case ps[1].K == syntax.SyntaxKindClosure:
			id := parts(ps[1])[0]
			v.expr("closure", id)
			v.line("bindings", "Names", id.T)
			v.expr("init", ps[1])
		default:
			v.pattern("pattern", ps[1])
			v.line("bindings", "Names", strings.Join(bindings(ps[1]), " "))
			if len(ps) > 2 {
				v.expr("init", ps[3])
			}
		}
	case "DestructAssignment":
		v.pattern("pattern", ps[0])
		v.expr("value", ps[2])
	case "SetRule":
		v.expr("target", ps[1])
		v.args(ps[2])
		if len(ps) > 3 {
			v.expr("condition", ps[4])
		}
	case "ShowRule":
		if len(ps) == 4 {
			v.expr("selector", ps[1])
		}
		v.expr("transform", last())
	case "Contextual":
		v.expr("body", ps[1])
	case "Conditional":
		v.expr("condition", ps[1])
		v.expr("if", ps[2])
		if len(ps) > 3 {
			v.expr("else", ps[4])
		}
	case "WhileLoop":
		v.expr("condition", ps[1])
		v.expr("body", ps[2])
	case "ForLoop":
		v.pattern("pattern", ps[1])
		v.expr("iterable", ps[3])
		v.expr("body", ps[4])
	case "ModuleImport":
		src := ps[1]
		v.expr("source", src)
		switch src.K {
		case syntax.SyntaxKindIdent:
			v.line("bare", "", src.T)
		case syntax.SyntaxKindFieldAccess:
			fs := parts(src)
			v.line("bare", "", fs[len(fs)-1].T)
		case syntax.SyntaxKindStr:
			if b := bareNames[src.T]; b != "" {
				v.line("bare", "", b)
			} else if badPackages[src.T] {
				v.line("bare", "no package", "")
			} else {
				v.line("bare", "no path", "")
			}
		default:
			v.line("bare", "dynamic", "")
		}
		rest := ps[2:]
		if len(rest) > 0 && rest[0].K == syntax.SyntaxKindAs {
			v.expr("as", rest[1])
			rest = rest[2:]
		}
		for _, c := range rest {
			switch c.K {
			case syntax.SyntaxKindStar:
				v.line("imports", "wildcard", "")
			case syntax.SyntaxKindImportItems:
				v.line("imports", "items", "")
				v.in(func() {
					for _, it := range listItems(c) {
						path, bound := it, ""
						if it.K == syntax.SyntaxKindRenamedImportItem {
							ips := parts(it)
							path, bound = ips[0], ips[2].T
						}
						var names []string
						for _, p := range parts(path) {
							if p.K == syntax.SyntaxKindIdent {
								names = append(names, p.T)
							}
						}
						original := names[len(names)-1]
						if bound == "" {
							bound = original
						}
						v.line("path", "Names", strings.Join(names, " "))
						v.line("original", "", original)
						v.line("bound", "", bound)
					}
				})
			}
		}
	case "ModuleInclude":
		v.expr("source", last())
	case "FuncReturn":
		if len(ps) > 1 {
			v.expr("body", ps[1])
		}
	}
}

func viewOf(n *vgen.N) treeCase {
	v := &view{}
	v.markup("root", n)
	return treeCase{n.Text(), v.out.String()}
}

func TestV_C16(t *testing.T) {
	check := func(c treeCase, info *vh.Info) error {
		src := syntax.NewDetachedSource(c.Text)
		got := syntax.VerifAST(src.Root)
		info.NonTrivial = strings.Count(c.Want, "\n") > 4
		for _, l := range strings.Split(c.Want, "\n") {
			if f := strings.Fields(l); len(f) > 1 && (exprNames2[f[1]]) {
				info.Label(true, f[1])
			}
		}
		if got != c.Want {
			return fmt.Errorf("text %q: %v", c.Text, vgen.DiffText(c.Want, got))
		}
		return nil
	}
	markup := func(c ...*vgen.N) *vgen.N { return vgen.I(syntax.SyntaxKindMarkup, c...) }
	hash := vgen.L(syntax.SyntaxKindHash, "#")
	vh.Run(t, vh.Prop[treeCase]{
		Name: "code", Weight: 50,
		Gen: func(rt *rapid.T) treeCase {
			v := vgen.T{R: rt}
			if v.Chance(1, 2) {
				return viewOf(markup(hash, v.Stmt(vgen.NLNone, 3)))
			}
			return viewOf(markup(hash, v.CodeBlock(3)))
		},
		Check: check,
	})
	vh.Run(t, vh.Prop[treeCase]{
		Name: "math", Weight: 40,
		Gen: func(rt *rapid.T) treeCase {
			v := vgen.T{R: rt}
			return viewOf(markup(v.Equation(1 + v.N(4))))
		},
		Check: check,
	})
	vh.Run(t, vh.Prop[treeCase]{
		Name: "markup", Weight: 50,
		Gen:   func(rt *rapid.T) treeCase { return viewOf(vgen.T{R: rt}.Document(3)) },
		Check: check,
	})
	// Any tree, erroneous or not.
	vh.Run(t, vh.Prop[string]{
		Name: "casts", Weight: 15,
		Gen: func(rt *rapid.T) string {
			v := vgen.T{R: rt}
			switch v.N(4) {
			case 0:
				return v.Document(3).Text()
			case 1:
				return "$" + tokenText(v, "math").Text + "$"
			case 2:
				return "#{" + tokenText(v, "code").Text + "}"
			}
			return v.Text()
		},
		Check: func(text string, info *vh.Info) error {
			root := syntax.Parse(text)
			info.NonTrivial = len(text) > 20
			if err := checkDefaults(); err != nil {
				return err
			}
			return checkCasts(root, info)
		},
	})
}

var exprNames2 = map[string]bool{}

func init() {
	for _, n := range exprNames {
		exprNames2[n] = true
	}
}

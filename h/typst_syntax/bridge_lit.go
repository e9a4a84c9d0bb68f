package syntax

import (
	"fmt"
	"strconv"
)

// VerifValues decodes each literal of a tree through its typed view, in order.
func VerifValues(root *SyntaxNode) []string {
	var out []string
	add := func(format string, args ...any) { out = append(out, fmt.Sprintf(format, args...)) }
	float := func(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }
	var walk func(node *SyntaxNode)
	walk = func(node *SyntaxNode) {
		if e, ok := SyntaxNode_cast[Expr](node).Get(); ok {
			switch e := e.(type) {
			case *Int:
				add("int %d", e.get())
			case *Float:
				add("float %v", float(e.get()))
			case *Numeric:
				x, unit := e.get()
				name := map[Unit]string{Unit_Pt: "pt", Unit_Mm: "mm", Unit_Cm: "cm", Unit_In: "in", Unit_Rad: "rad", Unit_Deg: "deg", Unit_Em: "em", Unit_Fr: "fr", Unit_Percent: "%"}[unit]
				add("numeric %v %v", float(x), name)
			case *Str:
				add("str %q", e.get())
			case *Bool:
				add("bool %v", e.get())
			case *None:
				add("none")
			case *Auto:
				add("auto")
			case *Ident:
				add("ident %q", e.get())
			case *Escape:
				add("escape %U", e.get())
			case *Shorthand:
				add("shorthand %U", e.get())
			case *SmartQuote:
				add("quote %v", e.double())
			case *Link:
				add("link %q", e.get())
			case *Label:
				add("label %q", e.get())
			case *Ref:
				add("ref %q", e.target())
			case *Heading:
				add("heading %d", e.depth())
			case *EnumItem:
				if n, ok := e.number().Get(); ok {
					add("enum %d", n)
				} else {
					add("enum")
				}
			case *Raw:
				lang := ""
				if l, ok := e.lang().Get(); ok {
					lang = l.get()
				}
				var lines []string
				for _, l := range e.lines() {
					lines = append(lines, l.get())
				}
				add("raw %q %v %q", lang, e.block(), lines)
				return
			}
		}
		if inner, ok := node.Repr.(*InnerNode); ok {
			for _, c := range inner.Children {
				walk(c)
			}
		}
		if _, ok := node.Repr.(*ErrorNode); ok {
			add("error")
		}
	}
	walk(root)
	return out
}

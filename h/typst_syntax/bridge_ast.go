package syntax

import (
	"errors"
	"fmt"
	"strings"
)

// VerifAST dumps what the typed view of a tree exposes, reached through the
// accessors of the typed nodes only.
func VerifAST(root *SyntaxNode) string {
	d := &verifDump{}
	markup, ok := SyntaxNode_cast[*Markup](root).Get()
	if !ok {
		return "no markup"
	}
	d.markup("root", markup)
	return d.out.String()
}

type verifDump struct {
	out   strings.Builder
	depth int
}

func (d *verifDump) line(role, name, text string) {
	d.out.WriteString(strings.Repeat(" ", d.depth))
	fmt.Fprintf(&d.out, "%s %s %q\n", role, name, text)
}

func (d *verifDump) in(f func()) {
	d.depth++
	f()
	d.depth--
}

// node prints a typed node, checked against the untyped node it wraps.
func (d *verifDump) node(role string, n AstNode, name string) {
	node := n.to_untyped()
	if AstNode_span(n) != node.span() {
		d.line(role, "span of", name)
	}
	d.line(role, name, string(node.into_text()))
}

func (d *verifDump) markup(role string, m *Markup) {
	d.node(role, m, "Markup")
	d.in(func() {
		for _, e := range m.exprs() {
			d.expr("-", e)
		}
	})
}

func (d *verifDump) idents(role string, ids []*Ident) {
	var s []string
	for _, id := range ids {
		s = append(s, id.get())
	}
	d.line(role, "Names", strings.Join(s, " "))
}

func (d *verifDump) pattern(role string, p Pattern) {
	switch p := p.(type) {
	case *Pattern_Normal:
		d.node(role, p, "Normal")
		d.in(func() { d.expr("expr", p.expr) })
	case *Pattern_Placeholder:
		d.node(role, p, "Placeholder")
	case *Pattern_Parenthesized:
		d.node(role, p, "Parenthesized")
		d.in(func() { d.pattern("pattern", p.pattern.pattern()) })
	case *Pattern_Destructuring:
		d.node(role, p, "Destructuring")
		d.in(func() {
			for _, it := range p.pattern.items() {
				switch it := it.(type) {
				case *DestructuringItem_Pattern:
					d.pattern("-", it.pattern)
				case *DestructuringItem_Named:
					d.node("-", it, "Named")
					d.in(func() {
						d.expr("name", it.named.name())
						d.pattern("pattern", it.named.pattern())
					})
				case *DestructuringItem_Spread:
					d.node("-", it, "Spread")
					d.in(func() {
						if e, ok := it.spread.sink_expr().Get(); ok {
							d.expr("sink", e)
						}
						if e, ok := it.spread.sink_ident().Get(); ok {
							d.line("sink", "Name", e.get())
						}
					})
				default:
					d.line("-", fmt.Sprintf("unexpected %T", it), "")
				}
			}
		})
	default:
		d.line(role, fmt.Sprintf("unexpected %T", p), "")
	}
}

func (d *verifDump) named(role string, n *Named) {
	d.node(role, n, "Named")
	d.in(func() {
		d.expr("name", n.name())
		d.expr("expr", n.expr())
	})
}

func (d *verifDump) spread(role string, n *Spread) {
	d.node(role, n, "Spread")
	d.in(func() { d.expr("expr", n.expr()) })
}

func (d *verifDump) args(role string, args *Args) {
	d.node(role, args, "Args")
	d.in(func() {
		for _, it := range args.items() {
			switch it := it.(type) {
			case *Arg_Pos:
				d.expr("-", it.arg)
			case *Arg_Named:
				d.named("-", it.arg)
			case *Arg_Spread:
				d.spread("-", it.arg)
			default:
				d.line("-", fmt.Sprintf("unexpected %T", it), "")
			}
		}
		children := args.SyntaxNode.children()
		if len(children) > 0 && children[len(children)-1].kind() == SyntaxKindRightParen {
			d.line("trailing comma", fmt.Sprint(args.trailing_comma()), "")
		}
	})
}

func (d *verifDump) params(role string, p *Params) {
	d.node(role, p, "Params")
	d.in(func() {
		for _, it := range p.children() {
			switch it := it.(type) {
			case *Param_Pos:
				d.pattern("-", it.param)
			case *Param_Named:
				d.named("-", it.param)
			case *Param_Spread:
				d.node("-", it, "Spread")
				d.in(func() {
					if e, ok := it.param.sink_ident().Get(); ok {
						d.line("sink", "Name", e.get())
					}
				})
			default:
				d.line("-", fmt.Sprintf("unexpected %T", it), "")
			}
		}
	})
}

func (d *verifDump) math(role string, m *Math) {
	d.node(role, m, "Math")
	d.in(func() { d.mathBody(m) })
}

func (d *verifDump) mathBody(m *Math) {
	d.line("deparenthesized", fmt.Sprint(m.was_deparenthesized()), "")
	for _, e := range m.exprs() {
		d.expr("-", e)
	}
}

func (d *verifDump) expr(role string, e Expr) {
	if a, ok := e.(*MathAttach); ok && len(a.children()) == 1 {
		// After primes, a node may be wrapped once more.
		e = a.base()
	}
	name := strings.TrimPrefix(fmt.Sprintf("%T", e), "*syntax.")
	d.node(role, e, name)
	d.depth++
	defer func() { d.depth-- }()
	if Expr_is_literal(e) {
		d.line("is", "literal", "")
	}
	if Expr_hash(e) {
		d.line("is", "hash", "")
	}
	switch e := e.(type) {
	case *Text:
		d.line("get", "", e.get())
	case *Strong:
		d.markup("body", e.body())
	case *Emph:
		d.markup("body", e.body())
	case *Raw:
		if lang, ok := e.lang().Get(); ok {
			d.line("lang", "", lang.get())
		}
		d.line("block", fmt.Sprint(e.block()), "")
		for _, l := range e.lines() {
			d.line("-", "", l.get())
		}
	case *Link:
		d.line("get", "", e.get())
	case *Label:
		d.line("get", "", e.get())
	case *Ref:
		d.line("target", "", e.target())
		if s, ok := e.supplement().Get(); ok {
			d.expr("supplement", s)
		}
	case *Heading:
		d.line("depth", fmt.Sprint(e.depth()), "")
		d.markup("body", e.body())
	case *ListItem:
		d.markup("body", e.body())
	case *EnumItem:
		if n, ok := e.number().Get(); ok {
			d.line("number", fmt.Sprint(n), "")
		}
		d.markup("body", e.body())
	case *TermItem:
		d.markup("term", e.term())
		d.markup("description", e.description())
	case *Ident:
		d.line("get", "", e.get())
	case *Equation:
		d.line("block", fmt.Sprint(e.block()), "")
		d.math("body", e.body())
	case *Math:
		d.mathBody(e)
	case *MathText:
		switch t := e.get().(type) {
		case *MathTextKind_Number:
			d.line("number", "", t.str)
		case *MathTextKind_Character:
			d.line("character", "", string(t.c))
		}
	case *MathIdent:
		d.line("get", "", e.get())
	case *MathShorthand:
		d.line("get", "", string(e.get()))
	case *MathDelimited:
		d.expr("open", e.open())
		d.math("body", e.body())
		d.expr("close", e.close())
	case *MathAttach:
		d.expr("base", e.base())
		if x, ok := e.bottom().Get(); ok {
			d.expr("bottom", x)
		}
		if x, ok := e.top().Get(); ok {
			d.expr("top", x)
		}
		if x, ok := e.primes().Get(); ok {
			d.expr("primes", x)
		}
	case *MathPrimes:
		d.line("count", fmt.Sprint(e.count()), "")
	case *MathFrac:
		d.expr("num", e.num())
		d.expr("denom", e.denom())
	case *MathRoot:
		if i, ok := e.index().Get(); ok {
			d.line("index", fmt.Sprint(i), "")
		}
		d.expr("radicand", e.radicand())
	case *Bool:
		d.line("get", fmt.Sprint(e.get()), "")
	case *CodeBlock:
		body := e.body()
		d.node("body", body, "Code")
		d.in(func() {
			for _, e := range body.exprs() {
				d.expr("-", e)
			}
		})
	case *ContentBlock:
		d.markup("body", e.body())
	case *Parenthesized:
		d.expr("expr", e.expr())
	case *Array:
		for _, it := range e.items() {
			switch it := it.(type) {
			case *ArrayItem_Pos:
				d.expr("-", it.expr)
			case *ArrayItem_Spread:
				d.spread("-", it.spread)
			default:
				d.line("-", fmt.Sprintf("unexpected %T", it), "")
			}
		}
	case *Dict:
		for _, it := range e.items() {
			switch it := it.(type) {
			case *DictItem_Named:
				d.named("-", it.item)
			case *DictItem_Keyed:
				d.node("-", it, "Keyed")
				d.in(func() {
					d.expr("key", it.item.key())
					d.expr("expr", it.item.expr())
				})
			case *DictItem_Spread:
				d.spread("-", it.item)
			default:
				d.line("-", fmt.Sprintf("unexpected %T", it), "")
			}
		}
	case *Unary:
		op := e.op()
		d.line("op", op.String(), fmt.Sprint(op.precedence()))
		d.expr("expr", e.expr())
	case *Binary:
		op := e.op()
		assoc := "left"
		if op.assoc() == Assoc_Right {
			assoc = "right"
		}
		d.line("op", op.String(), fmt.Sprint(op.precedence(), " ", assoc))
		d.expr("lhs", e.lhs())
		d.expr("rhs", e.rhs())
	case *FieldAccess:
		d.expr("target", e.target())
		d.expr("field", e.field())
	case *FuncCall:
		d.expr("callee", e.callee())
		d.args("args", e.args())
	case *Closure:
		if name, ok := e.name().Get(); ok {
			d.expr("name", name)
		}
		d.params("params", e.params())
		d.expr("body", e.body())
	case *LetBinding:
		switch k := e.kind().(type) {
		case *LetBindingKind_Normal:
			d.pattern("pattern", k.pattern)
			d.idents("bindings", k.bindings())
		case *LetBindingKind_Closure:
			d.expr("closure", k.ident)
			d.idents("bindings", k.bindings())
		}
		if init, ok := e.init().Get(); ok {
			d.expr("init", init)
		}
	case *DestructAssignment:
		d.pattern("pattern", e.pattern())
		d.expr("value", e.value())
	case *SetRule:
		d.expr("target", e.target())
		d.args("args", e.args())
		if c, ok := e.condition().Get(); ok {
			d.expr("condition", c)
		}
	case *ShowRule:
		if s, ok := e.selector().Get(); ok {
			d.expr("selector", s)
		}
		d.expr("transform", e.transform())
	case *Contextual:
		d.expr("body", e.body())
	case *Conditional:
		d.expr("condition", e.condition())
		d.expr("if", e.if_body())
		if b, ok := e.else_body().Get(); ok {
			d.expr("else", b)
		}
	case *WhileLoop:
		d.expr("condition", e.condition())
		d.expr("body", e.body())
	case *ForLoop:
		d.pattern("pattern", e.pattern())
		d.expr("iterable", e.iterable())
		d.expr("body", e.body())
	case *ModuleImport:
		d.expr("source", e.source())
		switch name, err := e.bare_name(); {
		case err == nil:
			d.line("bare", "", name)
		case errors.Is(err, ErrBareImport_Dynamic):
			d.line("bare", "dynamic", "")
		case errors.Is(err, ErrBareImport_PathInvalid):
			d.line("bare", "no path", "")
		case errors.Is(err, ErrBareImport_PackageInvalid):
			d.line("bare", "no package", "")
		default:
			d.line("bare", "error", err.Error())
		}
		if name, ok := e.new_name().Get(); ok {
			d.expr("as", name)
		}
		if imports, ok := e.imports().Get(); ok {
			switch imports := imports.(type) {
			case *Imports_Wildcard:
				d.line("imports", "wildcard", "")
			case *Imports_Items:
				d.line("imports", "items", "")
				d.in(func() {
					for _, it := range imports.items.iter() {
						d.idents("path", it.path().iter())
						d.line("original", "", it.original_name().get())
						d.line("bound", "", it.bound_name().get())
					}
				})
			}
		}
	case *ModuleInclude:
		d.expr("source", e.source())
	case *FuncReturn:
		if b, ok := e.body().Get(); ok {
			d.expr("body", b)
		}
	}
}

// VerifUntyped is the node which a typed node is a view of.
func VerifUntyped(n AstNode) *SyntaxNode { return n.to_untyped() }

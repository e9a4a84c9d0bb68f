package ext

import (
	"fmt"
	"strings"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

type triviaCase struct {
	Text string
	// What to do with each space of the text, in turn.
	Do []int
}

// skeleton prints a tree without trivia.
func skeleton(node *syntax.SyntaxNode) string {
	out := &strings.Builder{}
	var walk func(node *syntax.SyntaxNode, depth int)
	walk = func(node *syntax.SyntaxNode, depth int) {
		if k := node.SyntaxKind(); k.IsTrivia() && k != syntax.SyntaxKindParbreak {
			return
		}
		fmt.Fprintf(out, "%*s%v", depth, "", node.SyntaxKind())
		switch n := node.Repr.(type) {
		case *syntax.LeafNode:
			if n.Kind != syntax.SyntaxKindParbreak {
				fmt.Fprintf(out, " %q", n.Text)
			}
			fmt.Fprintln(out)
		case *syntax.ErrorNode:
			fmt.Fprintf(out, " %q %q\n", n.Error.Message, n.Text)
		case *syntax.InnerNode:
			fmt.Fprintln(out)
			for _, c := range n.Children {
				walk(c, depth+1)
			}
		}
	}
	walk(node, 0)
	return out.String()
}

// respace puts more trivia where there is a space. It returns false if the
// columns of list items depend on spaces within a line.
func respace(root *syntax.SyntaxNode, do []int) (string, int, bool) {
	out := &strings.Builder{}
	line := ""
	ok, changes, i := true, 0, 0
	var prev syntax.SyntaxKind
	var walk func(node *syntax.SyntaxNode, markup bool)
	emit := func(kind syntax.SyntaxKind, text string, markup bool) {
		switch kind {
		case syntax.SyntaxKindListMarker, syntax.SyntaxKindEnumMarker, syntax.SyntaxKindTermMarker:
			if strings.TrimSpace(line) != "" {
				ok = false
			}
		}
		nl := strings.ContainsFunc(text, vgen.IsNewline)
		if kind == syntax.SyntaxKindSpace || kind == syntax.SyntaxKindParbreak {
			d := do[i%len(do)]
			i++
			after := prev == syntax.SyntaxKindShebang || prev == syntax.SyntaxKindLineComment
			switch {
			case after:
			case nl && d == 1:
				text = " " + vgen.Comments[i%len(vgen.Comments)] + text
			case nl && d == 2:
				text = " " + vgen.LineComments[i%len(vgen.LineComments)] + text
			case nl && d == 3:
				text = "\t " + text
			case nl || markup && strings.TrimSpace(line) == "":
				// Spaces at the start of a line say what belongs to what.
			case d == 1:
				text = " " + vgen.Comments[i%len(vgen.Comments)] + " "
			case d == 2:
				text += vgen.Comments[i%len(vgen.Comments)] + " "
			case d == 3:
				text += "\t"
			}
			if !after && d > 0 {
				changes++
			}
		}
		out.WriteString(text)
		line += text
		if k := strings.LastIndexFunc(line, vgen.IsNewline); k >= 0 {
			line = line[k:]
		}
		prev = kind
	}
	walk = func(node *syntax.SyntaxNode, markup bool) {
		switch n := node.Repr.(type) {
		case *syntax.LeafNode:
			emit(n.Kind, n.Text, markup)
		case *syntax.ErrorNode:
			emit(syntax.SyntaxKindError, n.Text, markup)
		case *syntax.InnerNode:
			for _, c := range n.Children {
				walk(c, n.Kind == syntax.SyntaxKindMarkup || n.Kind == syntax.SyntaxKindListItem ||
					n.Kind == syntax.SyntaxKindEnumItem || n.Kind == syntax.SyntaxKindTermItem)
			}
		}
	}
	walk(root, true)
	return out.String(), changes, ok
}

func TestV_C12(t *testing.T) {
	vh.Run(t, vh.Prop[triviaCase]{
		Name: "respace", Weight: 100,
		Gen: func(rt *rapid.T) triviaCase {
			v := vgen.T{R: rt}
			c := triviaCase{}
			switch v.W(3, 3, 2) {
			case 0:
				c.Text = v.Document(3).Text()
			case 1:
				c.Text = "#" + v.CodeBlock(3).Text()
			default:
				c.Text = v.Mutate(v.Document(3).Text(), 1+v.N(3))
			}
			for i := 0; i < 5; i++ {
				c.Do = append(c.Do, v.N(4))
			}
			return c
		},
		Check: func(c triviaCase, info *vh.Info) error {
			root := syntax.Parse(c.Text)
			if len(vgen.Errors(root)) > 0 {
				info.Label(true, "not well-formed")
				return nil
			}
			text, changes, ok := respace(root, c.Do)
			if !ok {
				info.Label(true, "depends on columns")
				return nil
			}
			info.NonTrivial = changes > 0
			info.Label(changes > 5, "more than five changes")
			want, got := skeleton(root), skeleton(syntax.Parse(text))
			if want != got {
				return fmt.Errorf("%q and %q differ: %v", c.Text, text, vgen.DiffText(want, got))
			}
			return nil
		},
	})
	// Trivia between tokens where there was none, or none where there was some.
	vh.Run(t, vh.Prop[triviaCase]{
		Name: "tokens", Weight: 100,
		Gen: func(rt *rapid.T) triviaCase {
			v := vgen.T{R: rt}
			c := triviaCase{}
			if v.Chance(1, 3) {
				c.Text = v.Document(3).Text()
			} else {
				c.Text = "#" + v.CodeBlock(3).Text()
			}
			for i := 0; i < 7; i++ {
				c.Do = append(c.Do, v.N(10))
			}
			return c
		},
		Check: func(c triviaCase, info *vh.Info) error {
			root := syntax.Parse(c.Text)
			if len(vgen.Errors(root)) > 0 {
				info.Label(true, "not well-formed")
				return nil
			}
			text, changes := retoken(root, c.Do)
			info.NonTrivial = changes > 0
			info.Label(changes > 5, "more than five changes")
			want, got := skeleton(root), skeleton(syntax.Parse(text))
			if want != got {
				return fmt.Errorf("%q and %q differ: %v", c.Text, text, vgen.DiffText(want, got))
			}
			return nil
		},
	})
}

// Nodes between whose parts trivia is free, and may or may not be there.
var loose = syntax.NewSyntaxSet(syntax.SyntaxKindArray, syntax.SyntaxKindDict, syntax.SyntaxKindParenthesized, syntax.SyntaxKindDestructuring,
	syntax.SyntaxKindParams, syntax.SyntaxKindArgs, syntax.SyntaxKindNamed, syntax.SyntaxKindKeyed, syntax.SyntaxKindSpread, syntax.SyntaxKindLetBinding,
	syntax.SyntaxKindSetRule, syntax.SyntaxKindShowRule, syntax.SyntaxKindConditional, syntax.SyntaxKindWhileLoop, syntax.SyntaxKindForLoop,
	syntax.SyntaxKindBinary, syntax.SyntaxKindUnary, syntax.SyntaxKindClosure, syntax.SyntaxKindDestructAssignment, syntax.SyntaxKindModuleImport,
	syntax.SyntaxKindModuleInclude, syntax.SyntaxKindImportItems, syntax.SyntaxKindRenamedImportItem, syntax.SyntaxKindImportItemPath,
	syntax.SyntaxKindContextual, syntax.SyntaxKindFuncReturn)

// retoken adds trivia between, and removes spaces from between, the parts of code.
func retoken(root *syntax.SyntaxNode, do []int) (string, int) {
	out := &strings.Builder{}
	changes, i := 0, 0
	// Whether a line break is free, as it is in parentheses.
	var walk func(node *syntax.SyntaxNode, free bool)
	walk = func(node *syntax.SyntaxNode, free bool) {
		inner, ok := node.Repr.(*syntax.InnerNode)
		if !ok {
			out.WriteString(vgen.TextOf(node))
			return
		}
		switch inner.Kind {
		case syntax.SyntaxKindEquation:
			// In math it depends on the context.
			out.WriteString(vgen.TextOf(node))
			return
		case syntax.SyntaxKindCode, syntax.SyntaxKindMarkup:
			free = false
		}
		for j, c := range inner.Children {
			here := free
			if j > 0 {
				prev := inner.Children[j-1]
				switch c.SyntaxKind() {
				case syntax.SyntaxKindLeftParen, syntax.SyntaxKindParams, syntax.SyntaxKindArgs, syntax.SyntaxKindContentBlock:
					// It may belong to what is before it only if it is adjacent.
				default:
					p, q := prev.SyntaxKind(), c.SyntaxKind()
					if !loose.Contains(inner.Kind) || p.IsTrivia() || q == syntax.SyntaxKindSpace {
						break
					}
					a, b := vgen.TextOf(prev), vgen.TextOf(c)
					if a == "" || b == "" || prev.SyntaxKind() == syntax.SyntaxKindContentBlock && inner.Kind == syntax.SyntaxKindArgs {
						break
					}
					d := do[i%len(do)]
					i++
					gap := ""
					switch d {
					case 1:
						gap = " "
					case 2:
						gap = " " + vgen.Comments[i%len(vgen.Comments)] + " "
					case 3:
						gap = vgen.Comments[i%len(vgen.Comments)]
						if strings.HasSuffix(a, "/") || strings.HasSuffix(a, "*") || strings.HasPrefix(b, "/") || strings.HasPrefix(b, "*") {
							gap = " " + gap + " "
						}
					case 4:
						if here {
							gap = " " + vgen.LineComments[i%len(vgen.LineComments)] + "\n"
						}
					case 5:
						if here {
							gap = "\n\n"
						}
					}
					if gap != "" {
						changes++
					}
					out.WriteString(gap)
				}
				if c.SyntaxKind() == syntax.SyntaxKindSpace && loose.Contains(inner.Kind) && j+1 < len(inner.Children) {
					next := inner.Children[j+1]
					a, b := vgen.TextOf(prev), vgen.TextOf(next)
					d := do[i%len(do)]
					i++
					first := b
					if d >= 6 && a != "" && b != "" && !vgen.Glue(a, b) && prev.SyntaxKind() != syntax.SyntaxKindLineComment &&
						!strings.HasPrefix(first, "(") && !strings.HasPrefix(first, "[") && !strings.HasPrefix(first, ".") && !strings.HasPrefix(first, "/") {
						changes++
						continue
					}
				}
			}
			switch c.SyntaxKind() {
			case syntax.SyntaxKindLeftParen:
				free = true
			case syntax.SyntaxKindRightParen:
				free = false
			}
			walk(c, free)
		}
	}
	walk(root, false)
	return out.String(), changes
}

package ext

import (
	"fmt"
	"strings"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

// item is an operand with the prefix operators before it, and the binary
// operator after it.
type item struct {
	Pre  []string
	Name string
	Op   string
}

type chainCase struct {
	Text  string
	Items []item
}

// The documented precedence of the operators. Prefix plus and minus bind
// tighter than all, "not" binds like a comparison.
var precOf = map[string]int{
	"*": 6, "/": 6, "+": 5, "-": 5, "\u2212": 5,
	"==": 4, "!=": 4, "<": 4, "<=": 4, ">": 4, ">=": 4, "in": 4, "not in": 4,
	"and": 3, "or": 2,
	"=": 1, "+=": 1, "-=": 1, "*=": 1, "/=": 1,
}

var opNames = []string{"+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=", "in", "not in", "and", "or", "=", "+=", "-=", "*=", "/=", "\u2212"}

// split brackets a chain of binary operators: the operator of least precedence
// splits the chain, the last one of several, or the first one for assignments.
func split(items []item) string {
	if len(items) == 1 {
		return items[0].Name
	}
	at := 0
	for i := 1; i+1 < len(items); i++ {
		p, q := precOf[items[i].Op], precOf[items[at].Op]
		if p < q || p == q && p != 1 {
			at = i
		}
	}
	return "(" + split(items[:at+1]) + " " + items[at].Op + " " + split(items[at+1:]) + ")"
}

// climb brackets a chain with prefix operators: a prefix operator applies to all
// that follows up to an operator of less precedence than its own.
func climb(items []item) string {
	pos, pre := 0, 0
	var expr func(min int) string
	expr = func(min int) string {
		var lhs string
		if it := items[pos]; pre < len(it.Pre) {
			op := it.Pre[pre]
			pre++
			p := 7
			if op == "not" {
				p = 4
			}
			lhs = "(" + op + " " + expr(p) + ")"
		} else {
			lhs = it.Name
		}
		for pos+1 < len(items) && precOf[items[pos].Op] >= min {
			op := items[pos].Op
			next := precOf[op] + 1
			if precOf[op] == 1 {
				next = 1
			}
			pos, pre = pos+1, 0
			lhs = "(" + lhs + " " + op + " " + expr(next) + ")"
		}
		return lhs
	}
	return expr(0)
}

// bracket prints what the parser made of it.
func bracket(node *syntax.SyntaxNode) string {
	switch n := node.Repr.(type) {
	case *syntax.LeafNode:
		return n.Text
	case *syntax.ErrorNode:
		return "ERROR " + n.Error.Message
	case *syntax.InnerNode:
		var parts []string
		for _, c := range n.Children {
			if !c.SyntaxKind().IsTrivia() {
				parts = append(parts, bracket(c))
			}
		}
		s := strings.Join(parts, " ")
		switch n.Kind {
		case syntax.SyntaxKindBinary, syntax.SyntaxKindUnary:
			s = "(" + strings.Replace(s, " not in ", " not in ", 1) + ")"
		}
		return s
	}
	return "?"
}

func TestV_C08(t *testing.T) {
	gen := func(prefix bool) func(rt *rapid.T) chainCase {
		return func(rt *rapid.T) chainCase {
			v := vgen.T{R: rt}
			n := 2 + v.N(6)
			ops := opNames
			if v.Chance(1, 3) {
				// Few operators, so that they repeat.
				k := v.N(len(opNames))
				ops = []string{opNames[k], opNames[v.N(len(opNames))]}
			}
			c := chainCase{}
			text := []string{}
			for i := 0; i < n; i++ {
				it := item{Name: string(rune('a' + i))}
				if prefix {
					for v.Chance(1, 3) && len(it.Pre) < 3 {
						it.Pre = append(it.Pre, v.Pick("-", "+", "not", "\u2212"))
					}
				}
				if i+1 < n {
					it.Op = ops[v.N(len(ops))]
				}
				c.Items = append(c.Items, it)
				text = append(text, it.Pre...)
				text = append(text, it.Name)
				if it.Op != "" {
					text = append(text, it.Op)
				}
			}
			for i, s := range text {
				if i > 0 {
					c.Text += v.Pick(" ", " ", " ", "  ", " /* c */ ", "\n")
				}
				c.Text += s
			}
			return c
		}
	}
	check := func(want func([]item) string) func(chainCase, *vh.Info) error {
		return func(c chainCase, info *vh.Info) error {
			root := syntax.Parse("#(" + c.Text + ")")
			got := bracket(root)
			w := "# ( " + want(c.Items) + " )"
			if got != w {
				return fmt.Errorf("%q groups as %v, not %v", c.Text, got, w)
			}
			info.NonTrivial = len(c.Items) > 2
			ps := map[int]bool{}
			for _, it := range c.Items {
				ps[precOf[it.Op]] = true
				info.Label(it.Op == "not in", "not in")
			}
			info.Label(len(ps) > 2, "several levels")
			return nil
		}
	}
	vh.Run(t, vh.Prop[chainCase]{Name: "binary", Weight: 50, Gen: gen(false), Check: check(split)})
	vh.Run(t, vh.Prop[chainCase]{Name: "prefix", Weight: 50, Gen: gen(true), Check: check(climb)})
}

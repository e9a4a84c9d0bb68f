package vgen

import "strings"

// Comments are block comments, with what block comments may hold.
var Comments = []string{
	"/* c */", "/**/", "/***/", "/****/", "/*/ a */", "/* /*/ b */ */", "/** a /*/**/*/ **/", "/* // */", "/* \" [ $ # { ( */", "/*\\*/", "/* /* */ */", "/*/**/*/", "/* * / */", "/* / * */", "/*`*/", "/*é漢*/", "/* = - + */", "/*/*/*/**/*/*/*/",
}

// LineComments are line comments.
var LineComments = []string{"// c", "//", "///", "// /* (", "//*", "// */ ] } ) $ \" `", "// // é", "//\t"}

// BlockComment draws a block comment.
func (t T) BlockComment() string {
	if t.Chance(1, 2) {
		return "/* c */"
	}
	return Comments[t.N(len(Comments))]
}

// LineComment draws a line comment.
func (t T) LineComment() string { return LineComments[t.N(len(LineComments))] }

func init() {
	for _, c := range Comments {
		depth, n := 0, 0
		for n < len(c) && (n == 0 || depth > 0) {
			switch {
			case strings.HasPrefix(c[n:], "/*"):
				depth, n = depth+1, n+2
			case strings.HasPrefix(c[n:], "*/"):
				depth, n = depth-1, n+2
			default:
				n++
			}
		}
		if depth != 0 || n != len(c) {
			panic("not one comment: " + c)
		}
	}
}

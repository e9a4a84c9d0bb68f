package ext

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/mewmew/typast/typst/syntax"
	"github.com/mewmew/typast/zz_verif/vgen"
	"github.com/mewmew/typast/zz_verif/vh"
	"pgregory.net/rapid"
)

// A fault is a template of a text with faults, and what each is reported as. In
// the template
//
//	‹ ›    mark the text which an error is at, which may be empty
//	~      is any trivia, and a space is some
//	$e     is an expression, $b a block, $s a string
//	$i     is a name, as are $j and $k, which are others
//	$K     is an expression which is no name, pattern or target, $L one which starts
//	       with no name; $N and $M are what they are called
//	$W     is a keyword, $X one which starts an expression; $V and $Y are what they
//	       are called
//	$O     is a token which starts no expression; $P is what it is called
//	$B     is a binary operator
//	$n     is a decimal number, $u a unit, and $z is no unit
//	$w     is some markup, $t text, $m math
//	$c     is a character which code does not have
//
// Messages have the same parts, and are followed by hints.
type fault struct {
	text string
	want string // messages, separated by " ; ", and their hints, each after " ! "
}

var codeFaults = []fault{
	// Bindings.
	{"let‹›", "expected pattern"},
	{"let‹› = $e", "expected pattern"},
	{"let $i =‹›", "expected expression"},
	{"let ($i,~$j)‹›", "expected equals sign"},
	{"let $i($j)‹›", "expected equals sign"},
	{"let ‹$L› = $e", "expected pattern, found $M"},
	{"let ‹$W› = $e", "expected pattern, found $V ! keyword `$W` is not allowed as an identifier; try `$W_` instead"},
	{"let (‹$X›) = $e", "expected pattern, found $Y ! keyword `$X` is not allowed as an identifier; try `$X_` instead"},
	{"let ($i,~..‹$X›) = $e", "expected pattern, found $Y ! keyword `$X` is not allowed as an identifier; try `$X_` instead"},
	{"let (‹else›) = $e", "unexpected keyword `else`"},
	{"let (‹not›) = $e", "unexpected operator `not`"},
	{"let ($i:~‹$W›) = $e", "expected pattern, found $V ! keyword `$W` is not allowed as an identifier; try `$W_` instead"},
	{"let $i‹› $e", "expected semicolon or line break"},
	{"let $i =~$e‹› $e", "expected semicolon or line break"},
	{"let $i =~$e‹› let $j =~$e", "expected semicolon or line break"},
	{"let ($i,~‹$i›) =~$e", "duplicate binding: $i"},
	{"let ($i,~..‹$i›) =~$e", "duplicate binding: $i"},
	{"let ($i,~($j,~‹$i›)) =~$e", "duplicate binding: $i"},
	{"let ($i,~$j:~‹$i›) =~$e", "duplicate binding: $i"},
	{"let ($k:~($i,~$j),~‹$i›,~‹$j›) =~$e", "duplicate binding: $i ; duplicate binding: $j"},
	{"let (..$i,~‹..$j›) =~$e", "only one destructuring sink is allowed"},
	{"let (..,~‹..$j›,~$k) =~$e", "only one destructuring sink is allowed"},
	{"let ($i,~‹,›~$j) =~$e", "unexpected comma"},
	{"let (‹,›~$j) =~$e", "unexpected comma"},
	{"let ($i‹› $j) =~$e", "expected comma"},
	{"let ($i:~$j‹› $k) =~$e", "expected comma"},
	{"let ($i:‹›~) =~$e", "expected pattern"},
	{"let (‹_›:~$j) =~$e", "expected identifier, found underscore"},
	{"let (‹$K›) =~$e", "expected pattern, found $N"},
	{"let ($i,~‹$K›) =~$e", "expected pattern, found $N"},
	{"let ($i:~‹$K›) =~$e", "expected pattern, found $N"},
	{"let ($i,~..‹$K›) =~$e", "expected pattern, found $N"},
	{"let (..‹($i)›) =~$e", "expected pattern, found group"},
	// Functions.
	{"let $i($j‹› $k) =~$e", "expected comma"},
	{"let $i($j,~‹,›~$k) =~$e", "unexpected comma"},
	{"let $i(‹,›) =~$e", "unexpected comma"},
	{"let $i($j:‹›~) =~$e", "expected expression"},
	{"let $i($j:~$e‹› $k) =~$e", "expected comma"},
	{"let $i(..‹$K›) =~$e", "expected pattern, found $N"},
	{"let $i(‹$K›) =~$e", "expected pattern, found $N"},
	{"let $i(..$j,~‹..$k›) =~$e", "only one argument sink is allowed"},
	{"let $i(..,~$j,~‹..$k›) =~$e", "only one argument sink is allowed"},
	{"let $i($j,~‹$j›) =~$e", "duplicate parameter: $j"},
	{"let $i($j:~$e,~‹$j›:~$e) =~$e", "duplicate parameter: $j"},
	{"let $i($j,~..‹$j›) =~$e", "duplicate parameter: $j"},
	{"let $i(($j,~$k),~‹$k›) =~$e", "duplicate parameter: $k"},
	{"let $i(‹_›:~$e) =~$e", "expected identifier, found underscore"},
	{"let $i(‹($j,~$k)›:~$e) =~$e", "expected identifier, found destructuring pattern"},
	{"let $i($j)‹›‹› $b", "expected equals sign ; expected semicolon or line break"},
	{"($i,~‹$i›) => $e", "duplicate parameter: $i"},
	{"($i,~$j:~$e,~‹$j›:~$e) => $e", "duplicate parameter: $j"},
	{"(..$i,~‹..$j›) => $e", "only one argument sink is allowed"},
	{"($i,~(‹$K›,~$j)) => $e", "expected pattern, found $N"},
	{"($i,~‹$K›) => $e", "expected pattern, found $N"},
	{"(‹_›:~$e) => $e", "expected identifier, found underscore"},
	{"($i,~$j) =>‹›", "expected expression"},
	{"$i =>‹›", "expected expression"},
	{"_ =>‹›", "expected expression"},
	// Rules.
	{"set‹›", "expected identifier"},
	{"set $i‹›", "expected argument list"},
	{"set $i.$j‹›", "expected argument list"},
	{"set $i‹› ($e)", "expected argument list ! there may not be any spaces before the argument list"},
	{"set $i‹›‹› [a]", "expected argument list ! there may not be any spaces before the argument list ; expected semicolon or line break"},
	{"set ‹$W›()", "expected identifier, found $V ! keyword `$W` is not allowed as an identifier; try `$W_` instead"},
	{"set $i() if‹›", "expected expression"},
	{"set $i()‹› $e", "expected semicolon or line break"},
	{"set $i() if $e‹› $e", "expected semicolon or line break"},
	{"set $i($j:~$e,~‹$j›:~$e)", "duplicate argument: $j"},
	{"show‹› $e", "expected colon"},
	{"show:‹›", "expected expression"},
	{"show $e:‹›", "expected expression"},
	{"show $e:~set $i()‹› $e", "expected semicolon or line break"},
	{"show $i: $e‹› $e", "expected semicolon or line break"},
	// Control flow.
	{"if‹›", "expected expression"},
	{"if $e‹›", "expected block"},
	{"if $e $b else‹›", "expected block"},
	{"if $e $b else if‹›", "expected expression"},
	{"if $e $b else if $e‹›", "expected block"},
	{"if $e $b‹› $i", "expected semicolon or line break"},
	{"while‹›", "expected expression"},
	{"while $e‹›", "expected block"},
	{"while $e $b‹› $e", "expected semicolon or line break"},
	{"for‹›", "expected pattern"},
	{"for $i‹›", "expected keyword `in`"},
	{"for $i in‹›", "expected expression"},
	{"for $i in $e‹›", "expected block"},
	{"for $i‹› $e $b", "expected keyword `in`"},
	{"for ($i,~$j)‹› $e $b", "expected keyword `in`"},
	{"for $i‹,› $j in $e $b", "unexpected comma ! destructuring patterns must be wrapped in parentheses"},
	{"for ‹$K› in $e $b", "expected pattern, found $N"},
	{"for ‹$W› in $e $b", "expected pattern, found $V ! keyword `$W` is not allowed as an identifier; try `$W_` instead"},
	{"for ($i,~‹$i›) in $e $b", "duplicate binding: $i"},
	{"for $i‹,›~‹$i› in $e $b", "unexpected comma ! destructuring patterns must be wrapped in parentheses ; duplicate binding: $i"},
	{"for $i‹,›~($j,~‹$i›) in $e $b", "unexpected comma ! destructuring patterns must be wrapped in parentheses ; duplicate binding: $i"},
	{"for ($i,~$j)‹,›~‹$j› in $e $b", "unexpected comma ! destructuring patterns must be wrapped in parentheses ; duplicate binding: $j"},
	{"for ($i,~..$j,~‹..$k›) in $e $b", "only one destructuring sink is allowed"},
	{"context‹›", "expected expression"},
	{"break‹› $i", "expected semicolon or line break"},
	{"continue‹› $e", "expected semicolon or line break"},
	{"return $e‹› $e", "expected semicolon or line break"},
	// Modules.
	{"import‹›", "expected expression"},
	{"import $s‹› $i", "expected semicolon or line break"},
	{"import $s as‹›", "expected identifier"},
	{"import $s as ‹$W›", "expected identifier, found $V ! keyword `$W` is not allowed as an identifier; try `$W_` instead"},
	{"import $s:~$i‹› $j", "expected comma"},
	{"import $s:~$i as‹›", "expected identifier"},
	{"import $s:~$i.‹›", "expected identifier"},
	{"import $s:~$i as ‹$W›", "expected identifier, found $V ! keyword `$W` is not allowed as an identifier; try `$W_` instead"},
	{"import $s:~‹$s›", "unexpected string"},
	{"import $s:~$i,~‹*›", "unexpected star"},
	{"import $s:~*‹,› $i", "unexpected comma"},
	{"import $s:~($i,~$j‹› $k)", "expected comma"},
	{"include‹›", "expected expression"},
	// Operators, fields, and calls.
	{"$e $B‹›", "expected expression"},
	{"not‹›", "expected expression"},
	{"-‹›", "expected expression"},
	{"$e not‹› $i", "expected keyword `in`"},
	{"$e + ‹_›", "expected expression, found underscore"},
	{"‹_› + $e", "expected expression, found underscore"},
	{"‹_›", "expected expression, found underscore"},
	{"$i.‹›", "expected identifier"},
	{"$i(‹,›)", "unexpected comma"},
	{"$i($e,~‹,›~$e)", "unexpected comma"},
	{"$i($e‹› $e)", "expected comma"},
	{"$i($j:‹›~)", "expected expression"},
	{"$i($j:‹›~, $e)", "expected expression"},
	{"$i(..‹›~)", "expected expression"},
	{"$i(‹$K›:~$e)", "expected identifier, found $N"},
	{"$i(‹_›)", "expected expression, found underscore"},
	{"$i(‹:› $e)", "unexpected colon"},
	{"$i($j:~$e,~$k,~‹$j›:~$e)", "duplicate argument: $j"},
	{"$i($j:~$e,~‹$j›:~$e,~‹$j›:~$e)", "duplicate argument: $j ; duplicate argument: $j"},
	// Arrays and dictionaries.
	{"($i‹› $j)", "expected comma"},
	{"($e,~$e‹› $e,~$e)", "expected comma"},
	{"(‹,›)", "unexpected comma"},
	{"($e,~‹,›~$e)", "unexpected comma"},
	{"($i:‹›~)", "expected expression"},
	{"($s:‹›~)", "expected expression"},
	{"(..‹›~)", "expected expression"},
	{"($i:~$e,~‹$j›)", "expected named or keyed pair, found identifier"},
	{"($i:~$e,~‹$K›)", "expected named or keyed pair, found $N"},
	{"(:~‹$K›)", "expected named or keyed pair, found $N"},
	{"($e,~‹$i:~$e›)", "expected expression, found named pair"},
	{"($e,~‹\"k\":~$e›)", "expected expression, found keyed pair"},
	{"($i:~$e,~‹$i›:~$e)", "duplicate key: $i"},
	{"($i:~$e,~‹\"$i\"›:~$e)", "duplicate key: $i"},
	{"(\"$i\":~$e,~$j:~$e,~‹$i›:~$e)", "duplicate key: $i"},
	{"(\"a,b\":~$e,~‹\"a\\u{2C}b\"›:~$e)", "duplicate key: a,b"},
	{"($e,~‹_›)", "expected expression, found underscore"},
	{"(let‹›)", "expected pattern"},
	// Assignments.
	{"($i,~$j) =‹›", "expected expression"},
	{"(‹\"a\"›:~$i) = $e", "expected identifier, found string"},
	{"(..$i,~‹..$j›) = $e", "only one destructuring sink is allowed"},
	// Statements.
	{"$e‹› $e", "expected semicolon or line break"},
	{"$i‹› <$j>", "expected semicolon or line break ! labels can only be applied in markup mode ! try wrapping your code in a markup block (`[ ]`)"},
	{"$i‹..›$j", "unexpected dots"},
	// Tokens.
	{"‹$c›", "the character `$c` is not valid in code"},
	{"$i ‹$c›", "the character `$c` is not valid in code"},
	{"‹$c›$i", "the character `$c` is not valid in code"},
	{"($i ‹$c›)", "the character `$c` is not valid in code"},
	{"‹$n$z›", "invalid number suffix: $z"},
	{"‹$n.$n$z›", "invalid number suffix: $z"},
	{"‹.$n$z›", "invalid number suffix: $z"},
	{"‹$ne›", "invalid floating point number: $ne"},
	{"‹$n.$ne+›", "invalid floating point number: $n.$ne+"},
	{"‹0b12›", "invalid binary number: 0b12"},
	{"‹0b›", "invalid binary number: 0b"},
	{"‹0o8›", "invalid octal number: 0o8"},
	{"‹0o›", "invalid octal number: 0o"},
	{"‹0xg›", "invalid hexadecimal number: 0xg"},
	{"‹0x›", "invalid hexadecimal number: 0x"},
	{"‹0b101$u›", "binary numbers cannot have a suffix ! try using a decimal number: 5$u"},
	{"‹0o17$u›", "octal numbers cannot have a suffix ! try using a decimal number: 15$u"},
	{"‹0xFF%›", "hexadecimal numbers cannot have a suffix ! try using a decimal number: 255%"},
	{"‹0xFFpt›", "invalid hexadecimal number: 0xFFpt"},
	{"‹0b11qq›", "binary numbers cannot have a suffix ! invalid number suffix: qq"},
	{"$n.$n‹›.$n", "expected semicolon or line break"},
	{"$i ‹*/›", "unexpected end of block comment ! consider escaping the `*` with a backslash or opening the block comment with `/*`"},
	{"‹*/›", "unexpected end of block comment ! consider escaping the `*` with a backslash or opening the block comment with `/*`"},
	{"$i(‹*/›)", "unexpected end of block comment ! consider escaping the `*` with a backslash or opening the block comment with `/*`"},
	// Markup in code.
	{"[‹*›a]", "unclosed delimiter"},
	{"[#‹› $t]", "expected expression"},
	{"[= a ‹*/›]", "unexpected end of block comment ! consider escaping the `*` with a backslash or opening the block comment with `/*`"},
	{"[#let $i =~$e‹› $t]", "expected semicolon or line break"},
}

var markupFaults = []fault{
	{"‹*›$t", "unclosed delimiter"},
	{"‹_›$t", "unclosed delimiter"},
	{"$w ‹*›$t", "unclosed delimiter"},
	{"‹*›$t ‹_›$t‹*›", "unclosed delimiter ; unclosed delimiter ; unclosed delimiter"},
	{"= $w ‹_›$t", "unclosed delimiter"},
	{"- ‹*›$t", "unclosed delimiter"},
	{"+ $w #[‹_›$t]", "unclosed delimiter"},
	{"#[‹*›$t]‹*›", "unclosed delimiter ; unclosed delimiter"},
	{"$w‹]›", "unexpected closing bracket ! try using a backslash escape: \\]"},
	{"‹]› $w", "unexpected closing bracket ! try using a backslash escape: \\]"},
	{"[$w] ‹]›", "unexpected closing bracket ! try using a backslash escape: \\]"},
	{"= $w ‹]›", "unexpected closing bracket ! try using a backslash escape: \\]"},
	{"/ $w‹›", "expected colon"},
	{"/ $w *$w*‹›", "expected colon"},
	{"‹*/›", "unexpected end of block comment ! consider escaping the `*` with a backslash or opening the block comment with `/*`"},
	{"$w ‹*/› $w", "unexpected end of block comment ! consider escaping the `*` with a backslash or opening the block comment with `/*`"},
	{"‹<$i›", "unclosed label"},
	{"$w ‹<$i› $w>", "unclosed label"},
	{"‹http://$n/[b›", "automatic links cannot contain unbalanced brackets, use the `link` function instead"},
	{"‹https://$n(b[c](d›", "automatic links cannot contain unbalanced brackets, use the `link` function instead"},
	{"‹\\u{zz}›", "invalid Unicode codepoint: zz"},
	{"‹\\u{}›", "invalid Unicode codepoint: "},
	{"$w‹\\u{110000}›", "invalid Unicode codepoint: 110000"},
	{"‹\\u{D800}›$w", "invalid Unicode codepoint: D800"},
	{"‹\\u{41›", "unclosed Unicode escape sequence"},
	{"‹\\u{41› $w", "unclosed Unicode escape sequence"},
	{"#‹›", "expected expression"},
	{"#‹› $w", "expected expression"},
	{"$w #‹›", "expected expression"},
	{"#‹$O›", "unexpected $P"},
	{"$w #‹$O› $w", "unexpected $P"},
	{"#‹)›", "unexpected closing paren"},
	{"#‹}›", "unexpected closing brace"},
	{"#‹]›", "unexpected closing bracket"},
	{"#[#‹› $t]", "expected expression"},
	{"#‹;›", "unexpected semicolon"},
	{"#‹_›", "unexpected underscore"},
	{"#‹-›$n", "unexpected minus"},
	{"#‹not› $t", "unexpected operator `not`"},
	{"#‹else›", "unexpected keyword `else`"},
	{"#‹$c›", "the character `$c` is not valid in code"},
	{"#‹$n$z›", "invalid number suffix: $z"},
	{"#‹$ne›", "invalid floating point number: $ne"},
	{"#let‹›", "expected pattern"},
	{"#let ‹$L›", "expected pattern, found $M"},
	{"#let $i =‹›", "expected expression"},
	{"#let $i‹› $t", "expected semicolon or line break"},
	{"#let $i = $e‹› $t", "expected semicolon or line break"},
	{"#set $i‹›", "expected argument list"},
	{"#set $i‹› ($e)", "expected argument list ! there may not be any spaces before the argument list"},
	{"#set $i()‹› $t", "expected semicolon or line break"},
	{"#show $i: $e‹› $t", "expected semicolon or line break"},
	{"#if‹›", "expected expression"},
	{"#if $e‹›", "expected block"},
	{"#if $e‹› $t", "expected block"},
	{"#if $e $b else‹› $t", "expected block"},
	{"#while‹›", "expected expression"},
	{"#while $e‹› $t", "expected block"},
	{"#for‹›", "expected pattern"},
	{"#for $i‹›", "expected keyword `in`"},
	{"#for $i in‹›", "expected expression"},
	{"#for $i in $e‹›", "expected block"},
	{"#for $i‹,› $j in $e $b", "unexpected comma ! destructuring patterns must be wrapped in parentheses"},
	{"#import‹›", "expected expression"},
	{"#import $s‹› $t", "expected semicolon or line break"},
	{"#import $s: $i‹› $j", "expected comma"},
	{"#import $s as‹›", "expected identifier"},
	{"#include‹›", "expected expression"},
	{"#context‹›", "expected expression"},
	{"#($e‹› $e)", "expected comma"},
	{"#($e,~‹$i:~$e›)", "expected expression, found named pair"},
	{"#$i($e‹› $e)", "expected comma"},
	{"#$i($j:~$e,~‹$j›:~$e) $w", "duplicate argument: $j"},
	{"#{$e‹› $e}", "expected semicolon or line break"},
	{"$w #{let‹›~} $w", "expected pattern"},
	{"#$i[‹*›$t] $w", "unclosed delimiter"},
	{"#$i[$w #‹› $w] $w", "expected expression"},
	{"@$i[‹_›$t]", "unclosed delimiter"},
}

var mathFaults = []fault{
	{"ff(ab:‹›~)", "expected expression"},
	{"ff(ab:‹›~,~$m)", "expected expression"},
	{"ff(ab:~$m,~‹ab›:~$m)", "duplicate argument: ab"},
	{"ff($m;~ab:~$m,~$m;~‹ab›:~$m)", "duplicate argument: ab"},
	{"ff(‹_›:~$m)", "expected identifier, found underscore"},
	{"ff(‹/›~$m)", "unexpected slash"},
	{"ff(‹_›~$m)", "unexpected underscore"},
	{"ff(‹^›,~$m)", "unexpected hat"},
	{"ff($m,~#‹,› $m)", "unexpected comma"},
	{"(‹/›~$m)", "unexpected slash"},
	{"[‹^›~$m]", "unexpected hat"},
	{"$m^‹›^$m", "expected expression"},
	{"$m _‹›~_ $m", "expected expression"},
	{"$m^‹›_$m", "expected expression"},
	{"$m/‹› /$m", "expected expression"},
	{"√‹›~^$m", "expected expression"},
	{"#‹› $m", "expected expression"},
	{"#($e‹› $e)", "expected comma"},
	{"#$i($j:~$e,~‹$j›:~$e)", "duplicate argument: $j"},
	{"#{$e‹› $e}", "expected semicolon or line break"},
	{"#[‹*›a]", "unclosed delimiter"},
	{"#let‹›;", "expected pattern"},
	{"#let $i =‹›;", "expected expression"},
	{"#let $i =~$e‹› x", "expected semicolon or line break"},
	{"‹\\u{zz}›", "invalid Unicode codepoint: zz"},
	{"‹*/›", "unexpected end of block comment ! consider escaping the `*` with a backslash or opening the block comment with `/*`"},
	{"#‹$n$z›", "invalid number suffix: $z"},
	{"#‹$c›", "the character `$c` is not valid in code"},
}

type errAt struct {
	At    int
	Text  string
	Msg   string
	Hints []string
}

func (e errAt) String() string { return fmt.Sprintf("%d %q: %v %q", e.At, e.Text, e.Msg, e.Hints) }

type errCase struct {
	Text string
	Want []errAt
}

var (
	faultNames = []string{"a", "b", "foo", "bar-baz", "x1", "_y", "é", "漢字", "x_", "If", "lets"}
	faultWords = []string{"a", "word", "two words", "é", "1 2", "x.", "漢字", "*b*", "_c_", "$x$", "#d", "`e`", "~"}
	faultExprs = []string{"a1", "7", "\"s\"", "g(1)", "a1.c", "[t]", "{2}", "none", "2pt", "true", "1.5", "`r`", "$x$", "g[t]", "g(a: 1)[t]", "auto", "0xff"}
	faultMath  = []string{"1", "x", "42", "\"s\"", "α", "pi", "gg(1)", "(1 + x)", "#a1;"}
	// What is no pattern, and what it is called.
	faultKinds = [][2]string{{"1", "integer"}, {"1.5", "float"}, {"\"v\"", "string"}, {"true", "boolean"}, {"false", "boolean"}, {"1pt", "numeric value"}, {"{1}", "code block"}, {"[x]", "content block"},
		{"$x$", "equation"}, {"f(x)", "function call"}, {"a1.c1", "field access"}, {"a1.b1()", "function call"}, {"f[x]", "function call"}}
	// Keywords, and what they are called.
	faultWordsKey = [][2]string{{"if", "keyword `if`"}, {"else", "keyword `else`"}, {"for", "keyword `for`"}, {"while", "keyword `while`"}, {"in", "keyword `in`"}, {"let", "keyword `let`"}, {"set", "keyword `set`"},
		{"show", "keyword `show`"}, {"context", "keyword `context`"}, {"import", "keyword `import`"}, {"include", "keyword `include`"}, {"as", "keyword `as`"}, {"return", "keyword `return`"}, {"break", "keyword `break`"},
		{"continue", "keyword `continue`"}, {"not", "operator `not`"}, {"and", "operator `and`"}, {"or", "operator `or`"}, {"none", "`none`"}, {"auto", "`auto`"}}
	// Tokens which start no expression, and what they are called.
	faultTokens = [][2]string{{"*", "star"}, {"/", "slash"}, {",", "comma"}, {":", "colon"}, {"=>", "arrow"}, {"=", "equals sign"}, {"==", "equality operator"}, {"!=", "inequality operator"}, {"<", "less-than operator"},
		{"<=", "less-than or equal operator"}, {">", "greater-than operator"}, {">=", "greater-than or equal operator"}, {"+=", "add-assign operator"}, {"-=", "subtract-assign operator"}, {"*=", "multiply-assign operator"},
		{"/=", "divide-assign operator"}, {"and", "operator `and`"}, {"or", "operator `or`"}, {"in", "keyword `in`"}, {"as", "keyword `as`"}, {"..", "dots"}, {".", "dot"}}
	faultOps   = []string{"+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=", "and", "or", "in", "not in", "=", "+=", "-=", "*=", "/="}
	faultChars = []string{"!", "&", "^", "|", "?", "@", "~", "'", "#", "\\", "%", "°", "§", "€", "☃", "😀", "×", "\u200b", "“"}
)

// expand makes a text of a template, and the errors which it has at an offset.
func (f fault) expand(v vgen.T, offset int) (string, []errAt) {
	parts := map[byte]string{}
	names := slices.Clone(faultNames)
	part := func(c byte) string {
		switch c {
		case 'e':
			return faultExprs[v.N(len(faultExprs))]
		case 'm':
			return faultMath[v.N(len(faultMath))]
		case 'b':
			return v.Pick("{3}", "{}", "[t]", "[]", "{ let q = 1 }", "{\n  a1\n}")
		case 's':
			return v.Pick("\"a\"", "\"a.typ\"", "\"@preview/a:1.2.3\"", "\"\"")
		case 'w':
			return faultWords[v.N(len(faultWords))]
		case 't':
			return v.Pick("a", "word", "two words", "é", "x.", "1, 2")
		case 'B':
			return faultOps[v.N(len(faultOps))]
		}
		if s, ok := parts[c]; ok {
			return s
		}
		switch c {
		case 'i', 'j', 'k':
			n := v.N(len(names))
			parts[c] = names[n]
			names = slices.Delete(names, n, n+1)
		case 'K', 'N':
			p := faultKinds[v.N(len(faultKinds))]
			parts['K'], parts['N'] = p[0], p[1]
		case 'L', 'M':
			p := faultKinds[v.N(9)] // those which start with no name
			parts['L'], parts['M'] = p[0], p[1]
		case 'W', 'V':
			p := faultWordsKey[v.N(len(faultWordsKey))]
			parts['W'], parts['V'] = p[0], p[1]
		case 'X', 'Y':
			var starts [][2]string
			for _, w := range faultWordsKey {
				if !slices.Contains([]string{"else", "in", "as", "not", "and", "or"}, w[0]) {
					starts = append(starts, w)
				}
			}
			p := starts[v.N(len(starts))]
			parts['X'], parts['Y'] = p[0], p[1]
		case 'O', 'P':
			p := faultTokens[v.N(len(faultTokens))]
			parts['O'], parts['P'] = p[0], p[1]
		case 'n':
			parts[c] = v.Pick("1", "2", "12", "903", "7")
		case 'u':
			parts[c] = v.Pick("pt", "mm", "in", "rad", "%", "cm", "em", "fr", "deg")
		case 'z':
			parts[c] = v.Pick("abc", "qq", "pxx", "ptt", "em2", "%%", "x", "ptx1", "rads", "PT", "u")
		case 'c':
			parts[c] = faultChars[v.N(len(faultChars))]
		default:
			panic("no part " + string(c))
		}
		return parts[c]
	}
	text := ""
	var errs []errAt
	depth := 0
	for i := 0; i < len(f.text); i++ {
		rest := f.text[i:]
		c := rest[0]
		switch {
		case strings.HasPrefix(rest, "‹"):
			errs = append(errs, errAt{At: offset + len(text), Text: text})
			i += len("‹") - 1
		case strings.HasPrefix(rest, "›"):
			e := &errs[len(errs)-1]
			e.Text = text[len(e.Text):]
			i += len("›") - 1
		case c == ' ' || c == '~':
			nl := vgen.NLNone
			if depth > 0 {
				nl = vgen.NLFree
			}
			for _, n := range v.Sp(nl, c == ' ') {
				text += n.T
			}
		case c == '$':
			i++
			text += part(f.text[i])
		default:
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
			text += f.text[i : i+1]
		}
	}
	for i, m := range strings.Split(f.want, " ; ") {
		if len(errs) == 0 {
			break
		}
		p := strings.Split(m, " ! ")
		for k := range p {
			out := ""
			for x := 0; x < len(p[k]); x++ {
				if p[k][x] == '$' {
					x++
					out += part(p[k][x])
				} else {
					out += p[k][x : x+1]
				}
			}
			p[k] = out
		}
		errs[i].Msg, errs[i].Hints = p[0], p[1:]
	}
	return text, errs
}

// Expressions, and what they are called.
var listKinds = [][2]string{{"1", "integer"}, {"x", "identifier"}, {"\"s\"", "string"}, {"f()", "function call"}, {"(1,)", "array"}, {"(z: 1)", "dictionary"}, {"(1)", "group"}, {"[t]", "content block"}, {"{2}", "code block"},
	{"-1", "unary expression"}, {"1 + 1", "binary expression"}, {"x => 1", "closure"}, {"x.y", "field access"}, {"none", "`none`"}, {"if x {1}", "`if` expression"}, {"(x, y) => 1", "closure"}, {"<l>", "label"}}

// listFault makes a list of parameters, arguments, pairs or patterns, many of
// them, with names and sinks that are repeated, as a template.
func listFault(v vgen.T) fault {
	var text string
	var want []string
	names := []string{"a", "b", "c", "é", "x-y", "d_"}[:1+v.N(6)]
	name := func() string { return names[v.N(len(names))] }
	mark := func(s, msg string) {
		text += "‹" + s + "›"
		want = append(want, msg)
	}
	seen := map[string]bool{}
	once := func(n, what string) {
		if seen[n] {
			mark(n, "duplicate "+what+": "+n)
		} else {
			text += n
		}
		seen[n] = true
	}
	n := 2 + v.N(3)*v.N(4)
	missing := false
	sep := func(i int) {
		missing = false
		if i < n-1 && !strings.HasSuffix(strings.TrimSuffix(text, "›"), "..") && v.Chance(1, 15) {
			// No separator: an error, unless there is one right before.
			missing = true
			m := strings.LastIndex(text, "‹")
			if !strings.HasSuffix(text, "›") || strings.HasSuffix(text[:m], "..") || strings.HasSuffix(text[:m], ":~") {
				mark("", "expected comma")
			}
			text += " "
		} else if i < n-1 {
			text += ",~"
		} else if v.Chance(1, 4) {
			text += "~,~"
		}
	}
	// spread writes a sink; the second and later ones are errors as a whole.
	sink := false
	spread := func(what string, binding string) {
		n := ""
		if v.Chance(3, 4) {
			n = name()
		}
		switch {
		case sink:
			mark(".."+n, "only one "+what+" sink is allowed")
			if n != "" {
				seen[n] = true
			}
		case n == "" || binding == "":
			text += ".." + n
		default:
			text += ".."
			once(n, binding)
		}
		sink = true
	}
	// pattern writes the items of a destructuring pattern.
	var pattern func(n int, bind bool)
	pattern = func(n int, bind bool) {
		bound := func() {
			if bind {
				once(name(), "binding")
			} else {
				text += name()
			}
		}
		outer := sink
		sink = false
		for i := range n {
			switch v.N(7) {
			case 0:
				text += name() + ":~"
				bound()
			case 1:
				text += "_"
			case 2:
				if bind {
					spread("destructuring", "binding")
				} else {
					spread("destructuring", "")
				}
			case 3:
				if n > 1 {
					text += "("
					pattern(1+v.N(3), bind)
					text += ")"
				} else {
					bound()
				}
			default:
				bound()
			}
			if i < n-1 {
				text += ",~"
			}
		}
		sink = outer
	}
	kind := v.N(6)
	switch kind {
	case 0: // parameters
		end := ""
		switch v.N(3) {
		case 0:
			text, end = "let f(", ") =~$e"
		case 1:
			text, end = "(", ") => $e"
		case 2:
			text, end = "let g = (", ") => $e"
		}
		for i := range n {
			switch v.N(8) {
			case 0, 1:
				once(name(), "parameter")
				text += ":~$e"
			case 2:
				spread("argument", "parameter")
			case 3:
				text += "_"
			case 4:
				text += "("
				pattern(2+v.N(2), true)
				text += ")"
			default:
				once(name(), "parameter")
			}
			sep(i)
		}
		text += end
	case 1: // arguments
		text = v.Pick("f(", "f.m(", "set f(", "show x: f(", "f[t](", "let x = f(", "f()(")
		for i := range n {
			switch v.N(8) {
			case 0:
				text += "..$e"
			case 1:
				text += "$e"
			case 2:
				text += name()
			case 3:
				k := v.Pick("1", "\"s\"", "f()", "(1,)", "[t]", "x.y", "none")
				for _, p := range listKinds {
					if p[0] == k {
						mark(k, "expected identifier, found "+p[1])
					}
				}
				if k == "none" {
					want[len(want)-1] += " ! keyword `none` is not allowed as an identifier; try `none_` instead"
				}
				text += ":~$e"
			default:
				once(name(), "argument")
				text += ":~$e"
			}
			sep(i)
		}
		text += ")"
	case 2, 3: // pairs
		text = v.Pick("(", "let d = (", "f((", "return (")
		end := ")"
		if text == "f((" {
			end = "))"
		}
		is := ""
		for i := range n {
			dict := v.Chance(4, 5)
			if kind == 3 {
				dict = v.Chance(1, 5)
			}
			switch {
			case v.Chance(1, 8):
				text += "..$e"
			case dict && is == "array":
				k, what := v.Pick("a", "\"a\"", "(1)", "1", "none"), "named pair"
				if k != "a" {
					what = "keyed pair"
				}
				mark(k+":~$e", "expected expression, found "+what)
			case dict:
				is = "dict"
				if v.Chance(1, 8) {
					text += v.Pick("1", "(a)", "a.b", "none", "f(a)") + ":~$e"
					break
				}
				key := name()
				out := v.Pick(key, key, "\""+key+"\"")
				if seen[key] {
					mark(out, "duplicate key: "+key)
				} else {
					text += out
				}
				seen[key] = true
				text += ":~$e"
			default:
				p := listKinds[v.N(len(listKinds))]
				if missing && p[0] == "-1" {
					p = listKinds[0]
				}
				if is == "dict" {
					mark(p[0], "expected named or keyed pair, found "+p[1])
				} else {
					text += p[0]
					is = "array"
				}
			}
			sep(i)
		}
		text += end
	case 4, 5: // patterns
		bind := v.Chance(3, 4)
		end := ") =~$e"
		switch {
		case !bind:
			text = "("
		case v.Chance(1, 2):
			text = "let ("
		default:
			text, end = "for (", ") in $e $b"
		}
		pattern(n, bind)
		text += end
	}
	return fault{text, strings.Join(want, " ; ")}
}

// errorsOf lists the errors of a tree.
func errorsOf(root *syntax.SyntaxNode) []errAt {
	var errs []errAt
	at := 0
	var walk func(n *syntax.SyntaxNode)
	walk = func(n *syntax.SyntaxNode) {
		switch n := n.Repr.(type) {
		case *syntax.LeafNode:
			at += len(n.Text)
		case *syntax.InnerNode:
			for _, c := range n.Children {
				walk(c)
			}
		case *syntax.ErrorNode:
			errs = append(errs, errAt{at, n.Text, n.Error.Message, slices.Clone(n.Error.Hints)})
			at += len(n.Text)
		}
	}
	walk(root)
	return errs
}

func checkErrors(c errCase, info *vh.Info) error {
	info.NonTrivial = len(c.Text) > 8
	root := syntax.Parse(c.Text)
	got := errorsOf(root)
	// The tree lists them, too.
	list := syntax.VerifErrors(root)
	if len(list) != len(got) {
		return fmt.Errorf("%q: %v errors are listed, of %v", c.Text, len(list), len(got))
	}
	for i, e := range list {
		if e.Message != got[i].Msg || !slices.Equal(e.Hints, got[i].Hints) {
			return fmt.Errorf("%q: error %v is listed as %v %q, not %v", c.Text, i, e.Message, e.Hints, got[i])
		}
	}
	for i, e := range c.Want {
		info.Label(len(e.Hints) > 0, "with a hint")
		info.Label(e.Text == "", "something is missing")
		if i >= len(got) {
			return fmt.Errorf("%q: no error %v", c.Text, e)
		}
		if got[i].String() != e.String() {
			return fmt.Errorf("%q: want error %v, got %v", c.Text, e, got[i])
		}
	}
	if len(got) > len(c.Want) {
		return fmt.Errorf("%q: unexpected error %v", c.Text, got[len(c.Want)])
	}
	info.Label(len(c.Want) > 1, "several errors")
	return nil
}

func TestV_C34(t *testing.T) {
	// Faults among good lines of code.
	vh.Run(t, vh.Prop[errCase]{
		Name: "code", Weight: 50,
		Gen: func(rt *rapid.T) errCase {
			v := vgen.T{R: rt}
			pre := v.Pick("#{", "#{", "a #{ ", "#[b {] #{", "- #{", "#f({", "#let c = {", "#(1, {", "= $x #{", "#show: it => {")
			post := map[string]string{"#f({": "})", "#(1, {": "})", "= $x #{": "}$ y", "#[b {] #{": "} c"}[pre]
			if post == "" {
				post = "}"
			}
			sep := v.Pick("\n", "\n", ";", "; ")
			c := errCase{Text: pre}
			if sep == "\n" {
				c.Text += sep
			}
			for i, n := 0, v.N(3); i < n; i++ {
				c.Text += v.Line(2).Text() + sep
			}
			for i, n := 0, 1+v.N(8)/7; i < n; i++ {
				f := codeFaults[v.N(len(codeFaults))]
				if v.Chance(1, 4) {
					f = listFault(v)
				}
				if sep != "\n" && (strings.HasPrefix(f.text, "‹") || strings.HasSuffix(f.text, "›") && !strings.HasSuffix(f.text, "‹›")) {
					// A statement which is an error takes no semicolon.
					continue
				}
				text, errs := f.expand(v, len(c.Text))
				c.Text += text
				c.Want = append(c.Want, errs...)
				for _, n := range v.Sp(vgen.NLNone, false) {
					c.Text += n.T
				}
				if sep == "\n" && v.Chance(1, 8) {
					c.Text += " " + v.LineComment()
				}
				c.Text += sep
			}
			for i, n := 0, v.N(3); i < n; i++ {
				c.Text += v.Line(2).Text() + sep
			}
			c.Text += post
			return c
		},
		Check: checkErrors,
	})
	// Faults in paragraphs.
	vh.Run(t, vh.Prop[errCase]{
		Name: "markup", Weight: 30,
		Gen: func(rt *rapid.T) errCase {
			v := vgen.T{R: rt}
			c := errCase{}
			doc := v.Chance(2, 3)
			if doc {
				c.Text = v.Document(2).Text() + "\n\n"
			}
			for i, n := 0, 1+v.N(6)/5; i < n; i++ {
				if i > 0 {
					c.Text += "a\n\n"
				}
				f := markupFaults[v.N(len(markupFaults))]
				if v.Chance(1, 10) {
					f = listFault(v)
					if !strings.HasPrefix(f.text, "(") || !strings.Contains(f.text, ") =") {
						f.text = "#" + f.text
					} else {
						f.text = "#{" + f.text + "}"
					}
				}
				text, errs := f.expand(v, len(c.Text))
				c.Text += text + v.Pick("\n\n", "\n\n", "\n \n", "\r\n\r\n")
				c.Want = append(c.Want, errs...)
			}
			if !doc && strings.HasPrefix(c.Text, "#!") {
				c.Text = " " + c.Text
				for i := range c.Want {
					c.Want[i].At++
				}
			}
			if v.Chance(2, 3) {
				// A shebang is one at the start only.
				c.Text += strings.TrimPrefix(v.Document(2).Text(), "#!")
			}
			return c
		},
		Check: checkErrors,
	})
	// Faults in equations.
	vh.Run(t, vh.Prop[errCase]{
		Name: "math", Weight: 20,
		Gen: func(rt *rapid.T) errCase {
			v := vgen.T{R: rt}
			c := errCase{Text: v.Pick("$", "$ ", "a $", "#[$", "- $ ")}
			post := "$"
			if c.Text == "#[$" {
				post = "$]"
			}
			for i, n := 0, v.N(2); i < n; i++ {
				c.Text += faultMath[v.N(len(faultMath))] + " "
			}
			text, errs := mathFaults[v.N(len(mathFaults))].expand(v, len(c.Text))
			c.Text += text + " "
			c.Want = errs
			for i, n := 0, v.N(2); i < n; i++ {
				c.Text += faultMath[v.N(len(faultMath))] + " "
			}
			c.Text += post
			return c
		},
		Check: checkErrors,
	})
}

package ext

import "github.com/mewmew/typast/typst/syntax"

// kindNames holds the names under which Typst reports the kinds of nodes.
var kindNames = map[syntax.SyntaxKind]string{
	syntax.SyntaxKindEnd:                "end of tokens",
	syntax.SyntaxKindError:              "syntax error",
	syntax.SyntaxKindShebang:            "shebang",
	syntax.SyntaxKindLineComment:        "line comment",
	syntax.SyntaxKindBlockComment:       "block comment",
	syntax.SyntaxKindMarkup:             "markup",
	syntax.SyntaxKindText:               "text",
	syntax.SyntaxKindSpace:              "space",
	syntax.SyntaxKindLinebreak:          "line break",
	syntax.SyntaxKindParbreak:           "paragraph break",
	syntax.SyntaxKindEscape:             "escape sequence",
	syntax.SyntaxKindShorthand:          "shorthand",
	syntax.SyntaxKindSmartQuote:         "smart quote",
	syntax.SyntaxKindStrong:             "strong content",
	syntax.SyntaxKindEmph:               "emphasized content",
	syntax.SyntaxKindRaw:                "raw block",
	syntax.SyntaxKindRawLang:            "raw language tag",
	syntax.SyntaxKindRawTrimmed:         "raw trimmed",
	syntax.SyntaxKindRawDelim:           "raw delimiter",
	syntax.SyntaxKindLink:               "link",
	syntax.SyntaxKindLabel:              "label",
	syntax.SyntaxKindRef:                "reference",
	syntax.SyntaxKindRefMarker:          "reference marker",
	syntax.SyntaxKindHeading:            "heading",
	syntax.SyntaxKindHeadingMarker:      "heading marker",
	syntax.SyntaxKindListItem:           "list item",
	syntax.SyntaxKindListMarker:         "list marker",
	syntax.SyntaxKindEnumItem:           "enum item",
	syntax.SyntaxKindEnumMarker:         "enum marker",
	syntax.SyntaxKindTermItem:           "term list item",
	syntax.SyntaxKindTermMarker:         "term marker",
	syntax.SyntaxKindEquation:           "equation",
	syntax.SyntaxKindMath:               "math",
	syntax.SyntaxKindMathText:           "math text",
	syntax.SyntaxKindMathIdent:          "math identifier",
	syntax.SyntaxKindMathShorthand:      "math shorthand",
	syntax.SyntaxKindMathAlignPoint:     "math alignment point",
	syntax.SyntaxKindMathDelimited:      "delimited math",
	syntax.SyntaxKindMathAttach:         "math attachments",
	syntax.SyntaxKindMathFrac:           "math fraction",
	syntax.SyntaxKindMathRoot:           "math root",
	syntax.SyntaxKindMathPrimes:         "math primes",
	syntax.SyntaxKindHash:               "hash",
	syntax.SyntaxKindLeftBrace:          "opening brace",
	syntax.SyntaxKindRightBrace:         "closing brace",
	syntax.SyntaxKindLeftBracket:        "opening bracket",
	syntax.SyntaxKindRightBracket:       "closing bracket",
	syntax.SyntaxKindLeftParen:          "opening paren",
	syntax.SyntaxKindRightParen:         "closing paren",
	syntax.SyntaxKindComma:              "comma",
	syntax.SyntaxKindSemicolon:          "semicolon",
	syntax.SyntaxKindColon:              "colon",
	syntax.SyntaxKindStar:               "star",
	syntax.SyntaxKindUnderscore:         "underscore",
	syntax.SyntaxKindDollar:             "dollar sign",
	syntax.SyntaxKindPlus:               "plus",
	syntax.SyntaxKindMinus:              "minus",
	syntax.SyntaxKindSlash:              "slash",
	syntax.SyntaxKindHat:                "hat",
	syntax.SyntaxKindPrime:              "prime",
	syntax.SyntaxKindDot:                "dot",
	syntax.SyntaxKindEq:                 "equals sign",
	syntax.SyntaxKindEqEq:               "equality operator",
	syntax.SyntaxKindExclEq:             "inequality operator",
	syntax.SyntaxKindLt:                 "less-than operator",
	syntax.SyntaxKindLtEq:               "less-than or equal operator",
	syntax.SyntaxKindGt:                 "greater-than operator",
	syntax.SyntaxKindGtEq:               "greater-than or equal operator",
	syntax.SyntaxKindPlusEq:             "add-assign operator",
	syntax.SyntaxKindHyphEq:             "subtract-assign operator",
	syntax.SyntaxKindStarEq:             "multiply-assign operator",
	syntax.SyntaxKindSlashEq:            "divide-assign operator",
	syntax.SyntaxKindDots:               "dots",
	syntax.SyntaxKindArrow:              "arrow",
	syntax.SyntaxKindRoot:               "root",
	syntax.SyntaxKindNot:                "operator `not`",
	syntax.SyntaxKindAnd:                "operator `and`",
	syntax.SyntaxKindOr:                 "operator `or`",
	syntax.SyntaxKindNone:               "`none`",
	syntax.SyntaxKindAuto:               "`auto`",
	syntax.SyntaxKindLet:                "keyword `let`",
	syntax.SyntaxKindSet:                "keyword `set`",
	syntax.SyntaxKindShow:               "keyword `show`",
	syntax.SyntaxKindContext:            "keyword `context`",
	syntax.SyntaxKindIf:                 "keyword `if`",
	syntax.SyntaxKindElse:               "keyword `else`",
	syntax.SyntaxKindFor:                "keyword `for`",
	syntax.SyntaxKindIn:                 "keyword `in`",
	syntax.SyntaxKindWhile:              "keyword `while`",
	syntax.SyntaxKindBreak:              "keyword `break`",
	syntax.SyntaxKindContinue:           "keyword `continue`",
	syntax.SyntaxKindReturn:             "keyword `return`",
	syntax.SyntaxKindImport:             "keyword `import`",
	syntax.SyntaxKindInclude:            "keyword `include`",
	syntax.SyntaxKindAs:                 "keyword `as`",
	syntax.SyntaxKindCode:               "code",
	syntax.SyntaxKindIdent:              "identifier",
	syntax.SyntaxKindBool:               "boolean",
	syntax.SyntaxKindInt:                "integer",
	syntax.SyntaxKindFloat:              "float",
	syntax.SyntaxKindNumeric:            "numeric value",
	syntax.SyntaxKindStr:                "string",
	syntax.SyntaxKindCodeBlock:          "code block",
	syntax.SyntaxKindContentBlock:       "content block",
	syntax.SyntaxKindParenthesized:      "group",
	syntax.SyntaxKindArray:              "array",
	syntax.SyntaxKindDict:               "dictionary",
	syntax.SyntaxKindNamed:              "named pair",
	syntax.SyntaxKindKeyed:              "keyed pair",
	syntax.SyntaxKindUnary:              "unary expression",
	syntax.SyntaxKindBinary:             "binary expression",
	syntax.SyntaxKindFieldAccess:        "field access",
	syntax.SyntaxKindFuncCall:           "function call",
	syntax.SyntaxKindArgs:               "call arguments",
	syntax.SyntaxKindSpread:             "spread",
	syntax.SyntaxKindClosure:            "closure",
	syntax.SyntaxKindParams:             "closure parameters",
	syntax.SyntaxKindLetBinding:         "`let` expression",
	syntax.SyntaxKindSetRule:            "`set` expression",
	syntax.SyntaxKindShowRule:           "`show` expression",
	syntax.SyntaxKindContextual:         "`context` expression",
	syntax.SyntaxKindConditional:        "`if` expression",
	syntax.SyntaxKindWhileLoop:          "while-loop expression",
	syntax.SyntaxKindForLoop:            "for-loop expression",
	syntax.SyntaxKindModuleImport:       "`import` expression",
	syntax.SyntaxKindImportItems:        "import items",
	syntax.SyntaxKindImportItemPath:     "imported item path",
	syntax.SyntaxKindRenamedImportItem:  "renamed import item",
	syntax.SyntaxKindModuleInclude:      "`include` expression",
	syntax.SyntaxKindLoopBreak:          "`break` expression",
	syntax.SyntaxKindLoopContinue:       "`continue` expression",
	syntax.SyntaxKindFuncReturn:         "`return` expression",
	syntax.SyntaxKindDestructuring:      "destructuring pattern",
	syntax.SyntaxKindDestructAssignment: "destructuring assignment expression",
}

func kinds(k ...syntax.SyntaxKind) map[syntax.SyntaxKind]bool {
	m := map[syntax.SyntaxKind]bool{}
	for _, k := range k {
		m[k] = true
	}
	return m
}

From c5bc920a283631beaade285e4bceebc5009d843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:19 +0000
Subject: [PATCH 01/49] fix: lex a lone minus in code as minus, not as
 subtract-assign

'&&' binds tighter than '||', so every '-' in code was lexed as a
subtract-assign operator.
---
 typst/syntax/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 3dd18f8..5443436 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -942,7 +942,7 @@ func (lexer *Lexer) code(start uint, c rune) SyntaxKind {
 		return SyntaxKindGtEq
 	case c == '+' && lexer.s.EatIf("="):
 		return SyntaxKindPlusEq
-	case c == '-' || c == '\u2212' && lexer.s.EatIf("="):
+	case (c == '-' || c == '\u2212') && lexer.s.EatIf("="):
 		return SyntaxKindHyphEq
 	case c == '*' && lexer.s.EatIf("="):
 		return SyntaxKindStarEq
-- 
2.43.0


From b3e3d94a8eceb071b49f3e38f3e2c288d9d0e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:19 +0000
Subject: [PATCH 02/49] fix: SyntaxSet.Union dropped the kinds of the other set

BitSet.Union returns a new set and leaves its receiver unchanged, so the
result was a plain copy (and CodeExprSet lacked the unary operators).
---
 typst/syntax/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/set.go b/typst/syntax/set.go
index 0e9bf7b..b2a2f5c 100644
--- a/typst/syntax/set.go
+++ b/typst/syntax/set.go
@@ -34,7 +34,7 @@ func (set *SyntaxSet) Add(kind SyntaxKind) *SyntaxSet {
 // The original set is not modified.
 func (set *SyntaxSet) Union(other *SyntaxSet) *SyntaxSet {
 	clone := set.Clone()
-	clone.b.Union(other.b)
+	clone.b.InPlaceUnion(other.b)
 	return clone
 }
 
-- 
2.43.0


From 266d3783fa27a627a8bd8bd5318f1913517835fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:19 +0000
Subject: [PATCH 03/49] fix: IsCharBoundary rejected the boundary before a
 U+FFFD character

DecodeRuneInString returns RuneError both for invalid UTF-8 and for a
validly encoded U+FFFD, so parsing any text containing U+FFFD panicked.
---
 internal/stdx/stdx.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/stdx/stdx.go b/internal/stdx/stdx.go
index cb44739..5566c14 100644
--- a/internal/stdx/stdx.go
+++ b/internal/stdx/stdx.go
@@ -22,8 +22,10 @@ func IsCharBoundary(str string, index uint) bool {
 	if index == 0 || index == uint(len(str)) {
 		return true
 	}
-	c, _ := utf8.DecodeRuneInString(str[index:])
-	return c != utf8.RuneError
+	if index > uint(len(str)) {
+		return false
+	}
+	return utf8.RuneStart(str[index])
 }
 
 // IsWhitespace reports whether the given character has the White_Space
-- 
2.43.0


From 138a97f023115adbe60548ee12c8e20da8fb4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:19 +0000
Subject: [PATCH 04/49] fix: keep the source text when an inner node becomes an
 error

into_text joined the children with spaces, so an inner node which was
converted to an error no longer held the source text it covers.
---
 typst/syntax/node.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index 97edac2..be06ccf 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -162,10 +162,7 @@ func (node *SyntaxNode) into_text() string {
 		return repr.Text
 	case *InnerNode:
 		buf := &strings.Builder{}
-		for i, child := range repr.Children {
-			if i != 0 {
-				buf.WriteString(" ")
-			}
+		for _, child := range repr.Children {
 			buf.WriteString(child.into_text())
 		}
 		return buf.String()
-- 
2.43.0


From 4dbfc24e25840bad376bf4e7a61def05a5bfd50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:19 +0000
Subject: [PATCH 05/49] fix: Scanner.EatIfFunc and EatIfAny ate a whole run of
 characters

They are the counterparts of AtFunc and AtAny, and every caller means a
single character: eating one newline of a raw text ate all following
blank lines as well, and an exponent accepted several signs.
---
 internal/scanner/scanner.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/internal/scanner/scanner.go b/internal/scanner/scanner.go
index 10447c0..aa86eb4 100644
--- a/internal/scanner/scanner.go
+++ b/internal/scanner/scanner.go
@@ -227,28 +227,21 @@ func (s *Scanner) EatIf(pattern string) bool {
 	return true
 }
 
-// EatIfFunc consumes the given pattern (a sequence of characters that satisfy
-// cond) if that's what's right after the cursor.
+// EatIfFunc consumes the given pattern (a character that satisfies cond) if
+// that's what's right after the cursor.
 //
 // Returns true if the pattern was consumed.
 func (s *Scanner) EatIfFunc(cond func(rune) bool) bool {
-	after := s.After()
-	n := 0
-	for _, c := range after {
-		if !cond(c) {
-			break
-		}
-		n += utf8.RuneLen(c)
-	}
-	if n == 0 {
+	c, ok := s.Peek()
+	if !ok || !cond(c) {
 		return false
 	}
-	s.cursor += uint(n)
+	s.cursor += uint(utf8.RuneLen(c))
 	return true
 }
 
-// EatIfAny consumes the given pattern (a sequence of any of the given
-// characters) if that's what's right after the cursor.
+// EatIfAny consumes the given pattern (any of the given characters) if that's
+// what's right after the cursor.
 //
 // Returns true if the pattern was consumed.
 func (s *Scanner) EatIfAny(valid []rune) bool {
-- 
2.43.0


From 0dbe29f4afbe2982f3ccd1d655016864d1f58bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:19 +0000
Subject: [PATCH 06/49] fix: Scanner.Locate(0) is the cursor, not the end of
 the text

---
 internal/scanner/scanner.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/scanner/scanner.go b/internal/scanner/scanner.go
index aa86eb4..6fb8fb4 100644
--- a/internal/scanner/scanner.go
+++ b/internal/scanner/scanner.go
@@ -158,7 +158,10 @@ func (s *Scanner) Scout(n int) (rune, bool) {
 // - `locate(-1)` is the byte position of the character before the cursor.
 // - `locate(0)` is the same as `cursor()`.
 func (s *Scanner) Locate(n int) uint {
-	if n >= 0 {
+	if n == 0 {
+		return s.Cursor()
+	}
+	if n > 0 {
 		chars := []rune(s.After()) // TODO: optimize?
 		i := 0
 		length := 0
-- 
2.43.0


From 94cec28096db6c754c82eff08a501c92b37ff4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:02 +0000
Subject: [PATCH 07/49] fix: compute the common prefix and suffix in
 Lines.ReplacementRange

The loops counted every equal position instead of stopping at the first
difference, and the suffix was grown rather than shrunk to reach a
character boundary, so Replace produced a text other than the new one.
---
 typst/syntax/lines.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 9e1e829..06d7085 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -228,10 +228,8 @@ func (l *Lines) ReplacementRange(new string) (ReplacementRange, bool) {
 
 	n := min(len(old), len(new))
 	prefix := 0
-	for i := 0; i < n; i++ {
-		if old[i] == new[i] {
-			prefix++
-		}
+	for prefix < n && old[prefix] == new[prefix] {
+		prefix++
 	}
 
 	for !stdx.IsCharBoundary(old, uint(prefix)) || !stdx.IsCharBoundary(new, uint(prefix)) {
@@ -239,14 +237,12 @@ func (l *Lines) ReplacementRange(new string) (ReplacementRange, bool) {
 	}
 
 	suffix := 0
-	for i, j := len(old)-1, len(new)-1; i >= prefix && j >= prefix; i, j = i-1, j-1 {
-		if old[i] == new[j] {
-			suffix++
-		}
+	for i, j := len(old)-1, len(new)-1; i >= prefix && j >= prefix && old[i] == new[j]; i, j = i-1, j-1 {
+		suffix++
 	}
 
 	for !stdx.IsCharBoundary(old, uint(len(old)-suffix)) || !stdx.IsCharBoundary(new, uint(len(new)-suffix)) {
-		suffix++
+		suffix--
 	}
 
 	return ReplacementRange{
-- 
2.43.0


From 14db5510735169648567dda4535e3acbcc6a352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:02 +0000
Subject: [PATCH 08/49] fix: keep line starts right when an edit joins or
 splits a CRLF

Deleting the text between a CR and an LF kept the line start between
them, inserting between a CR and an LF lost the line which the CR ends,
and inserting an LF between them dropped the preceding line start.
---
 typst/syntax/lines.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 06d7085..e9e52d7 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -271,9 +271,15 @@ func (l *Lines) Edit(replace ranges.Range, with string) {
 	// Remove invalidated line starts.
 	l.Lines = l.Lines[:line+1]
 
-	// Handle adjoining of \r and \n.
-	if strings.HasSuffix(l.Text[:startByte], "\r") && strings.HasPrefix(with, "\n") {
-		l.Lines = l.Lines[:len(l.Lines)-1]
+	// Handle adjoining and separation of \r and \n. The edit decides whether a
+	// \r right before it ends a line on its own or is part of a \r\n, so
+	// recalculate from the start of the line which that \r terminates.
+	if strings.HasSuffix(l.Text[:startByte], "\r") {
+		if l.Lines[len(l.Lines)-1].ByteIdx == startByte {
+			l.Lines = l.Lines[:len(l.Lines)-1]
+		}
+		last := l.Lines[len(l.Lines)-1]
+		startByte, startUtf16 = last.ByteIdx, last.Utf16Idx
 	}
 
 	// Recalculate the line starts after the edit.
-- 
2.43.0


From 6ce4c7bfcf748761baa4cdea0afe3c39a3c07294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:02 +0000
Subject: [PATCH 09/49] fix: saturate raw range spans to a value which fits
 their 23 bits

2^23 itself does not fit, so a saturated end spilled into the start.
---
 typst/syntax/span.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/span.go b/typst/syntax/span.go
index e478289..5c385d3 100644
--- a/typst/syntax/span.go
+++ b/typst/syntax/span.go
@@ -36,7 +36,7 @@ const (
 	rangePartShift = rangePartBits
 	rangePartMask  = (uint64(1) << rangePartBits) - 1
 	spanDetached   = 1
-	maxRangePart   = uint64(1) << rangePartBits
+	maxRangePart   = rangePartMask
 )
 
 var (
@@ -61,7 +61,8 @@ func NewSpanFromNumber(id FileID, number uint64) (Span, bool) {
 }
 
 // NewSpanFromRange creates a new span from a raw byte range.
-// If a range part exceeds the maximum value (2^23), it is saturated.
+// If a range part exceeds the maximum value (2^23-1), it is
+// saturated.
 func NewSpanFromRange(id FileID, byteRange ranges.Range) Span {
 	start := min(byteRange.Start, maxRangePart)
 	end := min(byteRange.End, maxRangePart)
-- 
2.43.0


From 2e3cb66fe904e3b45bdd4397933cc694f57da77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:02 +0000
Subject: [PATCH 10/49] fix: renumber and recheck the right children in
 replace_children

The renumbering loop stopped at the first failure and took success for
failure, nested numbering failures were ignored, and whether the node
stays erroneous was decided by the indices of the replacement rather
than by those of the children which are kept.
---
 typst/syntax/node.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index be06ccf..4606d97 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -328,7 +328,9 @@ func (node *SyntaxNode) numberize(id FileID, within ranges.Range) error {
 	case *LeafNode:
 		repr.Span = mid
 	case *InnerNode:
-		repr.numberize(id, option.None[ranges.Range](), within)
+		if err := repr.numberize(id, option.None[ranges.Range](), within); err != nil {
+			return err
+		}
 	case *ErrorNode:
 		repr.Error.Span = mid
 	}
@@ -568,7 +570,9 @@ func (node *InnerNode) numberize(id FileID, _range option.Option[ranges.Range],
 	}
 	for _, child := range node.Children[_range_start:_range_end] {
 		end := start + uint64(child.descendants())*stride
-		child.numberize(id, ranges.NewRange(start, end))
+		if err := child.numberize(id, ranges.NewRange(start, end)); err != nil {
+			return err
+		}
 		start = end
 	}
 
@@ -655,12 +659,12 @@ func (node *InnerNode) replace_children(_range ranges.Range, replacement []*Synt
 		}
 	}
 	if node.Erroneous {
-		for _, c := range node.Children[:replacement_range.Start] {
+		for _, c := range node.Children[:_range.Start] {
 			if c.erroneous() {
 				erroneous = true
 			}
 		}
-		for _, c := range node.Children[replacement_range.End:] {
+		for _, c := range node.Children[_range.End:] {
 			if c.erroneous() {
 				erroneous = true
 			}
@@ -713,7 +717,7 @@ func (node *InnerNode) replace_children(_range ranges.Range, replacement []*Synt
 
 		// Try to renumber.
 		within := ranges.NewRange(start_number, end_number)
-		if node.numberize(id, option.Some(renumber), within) != nil {
+		if node.numberize(id, option.Some(renumber), within) == nil {
 			return nil
 		}
 
-- 
2.43.0


From 1f632372f212ca3a854667e8d3e299f29243d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 11/49] fix: take the result of a successful incremental
 reparse

The block branch returned when replacing the children failed and went on
when it succeeded, and the markup branch was skipped for exactly the
parents in which it is possible.
---
 typst/syntax/reparser.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 1fce5d7..83c2c74 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -81,8 +81,9 @@ func try_reparse(
 			if child.kind().IsBlock() {
 				if newborn, ok := reparse_block(text, new_range).Get(); ok {
 					if err := node.replace_children(ranges.NewRange(uint64(i), uint64(i+1)), []*SyntaxNode{newborn}); err != nil {
-						return option.Some(new_range)
+						return option.None[ranges.Range]()
 					}
+					return option.Some(new_range)
 				}
 			}
 		}
@@ -111,7 +112,7 @@ func try_reparse(
 	if node.kind() != SyntaxKindMarkup {
 		return option.None[ranges.Range]()
 	}
-	if kind, ok := parent_kind.Get(); !ok || ok && kind == SyntaxKindContentBlock {
+	if kind, ok := parent_kind.Get(); ok && kind != SyntaxKindContentBlock {
 		return option.None[ranges.Range]()
 	}
 
@@ -180,9 +181,10 @@ func try_reparse(
 			// Similarly, if we children follow or we not top-level the nesting
 			// must match its previous value.
 			if (at_end || at_start == prev_at_start_after) && ((at_end && !parent_kind.IsPresent()) || nesting == prev_nesting_after) {
-				if err := node.replace_children(ranges.NewRange(uint64(start), uint64(end)), newborns); err == nil {
-					return option.Some(new_range)
+				if err := node.replace_children(ranges.NewRange(uint64(start), uint64(end)), newborns); err != nil {
+					return option.None[ranges.Range]()
 				}
+				return option.Some(new_range)
 			}
 		}
 
-- 
2.43.0


From aa5517f2a266b14a3e4f1557093315d7332435bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:34 +0000
Subject: [PATCH 12/49] fix: do not panic when highlighting a hash before a
 non-expression

---
 typst/syntax/highlight.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/highlight.go b/typst/syntax/highlight.go
index ab523bb..af416ae 100644
--- a/typst/syntax/highlight.go
+++ b/typst/syntax/highlight.go
@@ -572,8 +572,8 @@ func highlight_hash(node *LinkedNode) (Tag, bool) {
 	if !ok {
 		return 0, false
 	}
-	expr := SyntaxNode_cast[Expr](next.node).MustGet()
-	if !Expr_hash(expr) {
+	expr, ok := SyntaxNode_cast[Expr](next.node).Get()
+	if !ok || !Expr_hash(expr) {
 		return 0, false
 	}
 	if left, ok := next.leftmost_leaf(); ok {
-- 
2.43.0


From 89e8d617e516c4f5893209d0eab027a7cca63fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:34 +0000
Subject: [PATCH 13/49] fix: make the casts from untyped to typed nodes work

from_untyped had value receivers, so calling it on the nil pointer which
SyntaxNode_cast starts from always panicked; an interface type had no
method to call at all (parsing '#(_: 1)' panicked); and the catch-all
variants of the enums recursed endlessly.
---
 typst/syntax/ast.go      | 125 +++++++++++++++++++++---
 typst/syntax/ast_node.go | 202 +++++++++++++++++++--------------------
 2 files changed, 212 insertions(+), 115 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index a821d67..e905bf8 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -123,21 +123,32 @@ func SyntaxNode_is[T AstNode](node *SyntaxNode) bool {
 //
 // cast
 func SyntaxNode_cast[T AstNode](node *SyntaxNode) option.Option[T] {
-	var zero T
-	//if _, ok := zero.(Expr); ok {
-	//	return Expr_from_untyped(node)
-	//}
-	// HACK: unable to use type assertion with type parameter, so using string
-	// representation hack instead :)
-	type_name := fmt.Sprintf("%T", new(T))
-	if type_name == "*syntax.Expr" {
-		if expr, ok := Expr_from_untyped(node).Get(); ok {
-			return option.Some[T](expr.(T))
-		}
+	// Enums are represented by interfaces, which have no method to dispatch on.
+	switch any((*T)(nil)).(type) {
+	case *Expr:
+		return cast_node[T](Expr_from_untyped(node))
+	case *ArrayItem:
+		return cast_node[T](ArrayItem_from_untyped(node))
+	case *DictItem:
+		return cast_node[T](DictItem_from_untyped(node))
+	case *Arg:
+		return cast_node[T](Arg_from_untyped(node))
+	case *Param:
+		return cast_node[T](Param_from_untyped(node))
+	case *Pattern:
+		return cast_node[T](Pattern_from_untyped(node))
+	case *DestructuringItem:
+		return cast_node[T](DestructuringItem_from_untyped(node))
+	default:
+		var zero T
+		return cast_node[T](zero.from_untyped(node))
 	}
-	if _n, ok := zero.from_untyped(node).Get(); ok {
-		n := _n.(T)
-		return option.Some[T](n)
+}
+
+// Convert between an AST node type and one which it is known to implement.
+func cast_node[T, S AstNode](n option.Option[S]) option.Option[T] {
+	if n, ok := n.Get(); ok {
+		return option.Some(any(n).(T))
 	}
 	return option.None[T]()
 }
@@ -1495,6 +1506,16 @@ type ArrayItem interface {
 func (*ArrayItem_Pos) isArrayItem()    {}
 func (*ArrayItem_Spread) isArrayItem() {}
 
+// from_untyped
+func ArrayItem_from_untyped(node *SyntaxNode) option.Option[AstNode] {
+	switch node.kind() {
+	case SyntaxKindSpread:
+		return (*ArrayItem_Spread)(nil).from_untyped(node)
+	default:
+		return (*ArrayItem_Pos)(nil).from_untyped(node)
+	}
+}
+
 // A bare expression: `12`.
 //
 // Pos
@@ -1534,6 +1555,24 @@ type DictItem interface {
 	isDictItem()
 }
 
+func (*DictItem_Named) isDictItem()  {}
+func (*DictItem_Keyed) isDictItem()  {}
+func (*DictItem_Spread) isDictItem() {}
+
+// from_untyped
+func DictItem_from_untyped(node *SyntaxNode) option.Option[AstNode] {
+	switch node.kind() {
+	case SyntaxKindNamed:
+		return (*DictItem_Named)(nil).from_untyped(node)
+	case SyntaxKindKeyed:
+		return (*DictItem_Keyed)(nil).from_untyped(node)
+	case SyntaxKindSpread:
+		return (*DictItem_Spread)(nil).from_untyped(node)
+	default:
+		return option.None[AstNode]()
+	}
+}
+
 // A named pair: `thickness: 3pt`.
 //
 // Named
@@ -2106,6 +2145,22 @@ type Arg interface {
 	isArg()
 }
 
+func (*Arg_Pos) isArg()    {}
+func (*Arg_Named) isArg()  {}
+func (*Arg_Spread) isArg() {}
+
+// from_untyped
+func Arg_from_untyped(node *SyntaxNode) option.Option[AstNode] {
+	switch node.kind() {
+	case SyntaxKindNamed:
+		return (*Arg_Named)(nil).from_untyped(node)
+	case SyntaxKindSpread:
+		return (*Arg_Spread)(nil).from_untyped(node)
+	default:
+		return (*Arg_Pos)(nil).from_untyped(node)
+	}
+}
+
 // A positional argument: `12`.
 //
 // Pos
@@ -2179,6 +2234,22 @@ type Param interface {
 	isParam()
 }
 
+func (*Param_Pos) isParam()    {}
+func (*Param_Named) isParam()  {}
+func (*Param_Spread) isParam() {}
+
+// from_untyped
+func Param_from_untyped(node *SyntaxNode) option.Option[AstNode] {
+	switch node.kind() {
+	case SyntaxKindNamed:
+		return (*Param_Named)(nil).from_untyped(node)
+	case SyntaxKindSpread:
+		return (*Param_Spread)(nil).from_untyped(node)
+	default:
+		return (*Param_Pos)(nil).from_untyped(node)
+	}
+}
+
 // A positional parameter: `x`.
 //
 // Pos
@@ -2215,6 +2286,20 @@ func (*Pattern_Placeholder) isPattern()   {}
 func (*Pattern_Parenthesized) isPattern() {}
 func (*Pattern_Destructuring) isPattern() {}
 
+// from_untyped
+func Pattern_from_untyped(node *SyntaxNode) option.Option[AstNode] {
+	switch node.kind() {
+	case SyntaxKindUnderscore:
+		return (*Pattern_Placeholder)(nil).from_untyped(node)
+	case SyntaxKindParenthesized:
+		return (*Pattern_Parenthesized)(nil).from_untyped(node)
+	case SyntaxKindDestructuring:
+		return (*Pattern_Destructuring)(nil).from_untyped(node)
+	default:
+		return (*Pattern_Normal)(nil).from_untyped(node)
+	}
+}
+
 // A single expression: `x`.
 //
 // Normal
@@ -2297,6 +2382,18 @@ func (*DestructuringItem_Pattern) isDestructuringItem() {}
 func (*DestructuringItem_Named) isDestructuringItem()   {}
 func (*DestructuringItem_Spread) isDestructuringItem()  {}
 
+// from_untyped
+func DestructuringItem_from_untyped(node *SyntaxNode) option.Option[AstNode] {
+	switch node.kind() {
+	case SyntaxKindNamed:
+		return (*DestructuringItem_Named)(nil).from_untyped(node)
+	case SyntaxKindSpread:
+		return (*DestructuringItem_Spread)(nil).from_untyped(node)
+	default:
+		return (*DestructuringItem_Pattern)(nil).from_untyped(node)
+	}
+}
+
 // A sub-pattern: `x`.
 //
 // Pattern
diff --git a/typst/syntax/ast_node.go b/typst/syntax/ast_node.go
index 7ba62b2..7754306 100644
--- a/typst/syntax/ast_node.go
+++ b/typst/syntax/ast_node.go
@@ -19,7 +19,7 @@ import "github.com/mewmew/typast/internal/option"
 // --- [ Markup ] --------------------------------------------------------------
 
 // from_untyped
-func (Markup) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Markup) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMarkup {
 		return option.Some[AstNode](&Markup{SyntaxNode: node})
 	} else {
@@ -39,7 +39,7 @@ func Markup_default() *Markup {
 // --- [ Text ] ----------------------------------------------------------------
 
 // from_untyped
-func (Text) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Text) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindText {
 		return option.Some[AstNode](&Text{SyntaxNode: node})
 	} else {
@@ -59,7 +59,7 @@ func Text_default() *Text {
 // --- [ Space ] ---------------------------------------------------------------
 
 // from_untyped
-func (Space) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Space) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpace {
 		return option.Some[AstNode](&Space{SyntaxNode: node})
 	} else {
@@ -79,7 +79,7 @@ func Space_default() *Space {
 // --- [ Linebreak ] -----------------------------------------------------------
 
 // from_untyped
-func (Linebreak) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Linebreak) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindLinebreak {
 		return option.Some[AstNode](&Linebreak{SyntaxNode: node})
 	} else {
@@ -99,7 +99,7 @@ func Linebreak_default() *Linebreak {
 // --- [ Parbreak ] ------------------------------------------------------------
 
 // from_untyped
-func (Parbreak) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Parbreak) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindParbreak {
 		return option.Some[AstNode](&Parbreak{SyntaxNode: node})
 	} else {
@@ -119,7 +119,7 @@ func Parbreak_default() *Parbreak {
 // --- [ Escape ] --------------------------------------------------------------
 
 // from_untyped
-func (Escape) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Escape) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindEscape {
 		return option.Some[AstNode](&Escape{SyntaxNode: node})
 	} else {
@@ -139,7 +139,7 @@ func Escape_default() *Escape {
 // --- [ Shorthand ] -----------------------------------------------------------
 
 // from_untyped
-func (Shorthand) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Shorthand) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindShorthand {
 		return option.Some[AstNode](&Shorthand{SyntaxNode: node})
 	} else {
@@ -159,7 +159,7 @@ func Shorthand_default() *Shorthand {
 // --- [ SmartQuote ] ----------------------------------------------------------
 
 // from_untyped
-func (SmartQuote) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*SmartQuote) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSmartQuote {
 		return option.Some[AstNode](&SmartQuote{SyntaxNode: node})
 	} else {
@@ -179,7 +179,7 @@ func SmartQuote_default() *SmartQuote {
 // --- [ Strong ] --------------------------------------------------------------
 
 // from_untyped
-func (Strong) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Strong) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindStrong {
 		return option.Some[AstNode](&Strong{SyntaxNode: node})
 	} else {
@@ -199,7 +199,7 @@ func Strong_default() *Strong {
 // --- [ Emph ] ----------------------------------------------------------------
 
 // from_untyped
-func (Emph) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Emph) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindEmph {
 		return option.Some[AstNode](&Emph{SyntaxNode: node})
 	} else {
@@ -219,7 +219,7 @@ func Emph_default() *Emph {
 // --- [ Raw ] -----------------------------------------------------------------
 
 // from_untyped
-func (Raw) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Raw) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindRaw {
 		return option.Some[AstNode](&Raw{SyntaxNode: node})
 	} else {
@@ -239,7 +239,7 @@ func Raw_default() *Raw {
 // --- [ RawLang ] -------------------------------------------------------------
 
 // from_untyped
-func (RawLang) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*RawLang) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindRawLang {
 		return option.Some[AstNode](&RawLang{SyntaxNode: node})
 	} else {
@@ -259,7 +259,7 @@ func RawLang_default() *RawLang {
 // --- [ RawDelim ] ------------------------------------------------------------
 
 // from_untyped
-func (RawDelim) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*RawDelim) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindRawDelim {
 		return option.Some[AstNode](&RawDelim{SyntaxNode: node})
 	} else {
@@ -279,7 +279,7 @@ func RawDelim_default() *RawDelim {
 // --- [ Link ] ----------------------------------------------------------------
 
 // from_untyped
-func (Link) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Link) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindLink {
 		return option.Some[AstNode](&Link{SyntaxNode: node})
 	} else {
@@ -299,7 +299,7 @@ func Link_default() *Link {
 // --- [ Label ] ---------------------------------------------------------------
 
 // from_untyped
-func (Label) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Label) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindLabel {
 		return option.Some[AstNode](&Label{SyntaxNode: node})
 	} else {
@@ -319,7 +319,7 @@ func Label_default() *Label {
 // --- [ Ref ] -----------------------------------------------------------------
 
 // from_untyped
-func (Ref) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Ref) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindRef {
 		return option.Some[AstNode](&Ref{SyntaxNode: node})
 	} else {
@@ -339,7 +339,7 @@ func Ref_default() *Ref {
 // --- [ Heading ] -------------------------------------------------------------
 
 // from_untyped
-func (Heading) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Heading) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindHeading {
 		return option.Some[AstNode](&Heading{SyntaxNode: node})
 	} else {
@@ -359,7 +359,7 @@ func Heading_default() *Heading {
 // --- [ ListItem ] ------------------------------------------------------------
 
 // from_untyped
-func (ListItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ListItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindListItem {
 		return option.Some[AstNode](&ListItem{SyntaxNode: node})
 	} else {
@@ -379,7 +379,7 @@ func ListItem_default() *ListItem {
 // --- [ EnumItem ] ------------------------------------------------------------
 
 // from_untyped
-func (EnumItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*EnumItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindEnumItem {
 		return option.Some[AstNode](&EnumItem{SyntaxNode: node})
 	} else {
@@ -399,7 +399,7 @@ func EnumItem_default() *EnumItem {
 // --- [ TermItem ] ------------------------------------------------------------
 
 // from_untyped
-func (TermItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*TermItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindTermItem {
 		return option.Some[AstNode](&TermItem{SyntaxNode: node})
 	} else {
@@ -419,7 +419,7 @@ func TermItem_default() *TermItem {
 // --- [ Equation ] ------------------------------------------------------------
 
 // from_untyped
-func (Equation) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Equation) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindEquation {
 		return option.Some[AstNode](&Equation{SyntaxNode: node})
 	} else {
@@ -439,7 +439,7 @@ func Equation_default() *Equation {
 // --- [ Math ] ----------------------------------------------------------------
 
 // from_untyped
-func (Math) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Math) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMath {
 		return option.Some[AstNode](&Math{SyntaxNode: node})
 	} else {
@@ -459,7 +459,7 @@ func Math_default() *Math {
 // --- [ MathText ] ------------------------------------------------------------
 
 // from_untyped
-func (MathText) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathText) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathText {
 		return option.Some[AstNode](&MathText{SyntaxNode: node})
 	} else {
@@ -479,7 +479,7 @@ func MathText_default() *MathText {
 // --- [ MathIdent ] -----------------------------------------------------------
 
 // from_untyped
-func (MathIdent) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathIdent) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathIdent {
 		return option.Some[AstNode](&MathIdent{SyntaxNode: node})
 	} else {
@@ -499,7 +499,7 @@ func MathIdent_default() *MathIdent {
 // --- [ MathShorthand ] -------------------------------------------------------
 
 // from_untyped
-func (MathShorthand) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathShorthand) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathShorthand {
 		return option.Some[AstNode](&MathShorthand{SyntaxNode: node})
 	} else {
@@ -519,7 +519,7 @@ func MathShorthand_default() *MathShorthand {
 // --- [ MathAlignPoint ] ------------------------------------------------------
 
 // from_untyped
-func (MathAlignPoint) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathAlignPoint) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathAlignPoint {
 		return option.Some[AstNode](&MathAlignPoint{SyntaxNode: node})
 	} else {
@@ -539,7 +539,7 @@ func MathAlignPoint_default() *MathAlignPoint {
 // --- [ MathDelimited ] -------------------------------------------------------
 
 // from_untyped
-func (MathDelimited) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathDelimited) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathDelimited {
 		return option.Some[AstNode](&MathDelimited{SyntaxNode: node})
 	} else {
@@ -559,7 +559,7 @@ func MathDelimited_default() *MathDelimited {
 // --- [ MathAttach ] ----------------------------------------------------------
 
 // from_untyped
-func (MathAttach) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathAttach) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathAttach {
 		return option.Some[AstNode](&MathAttach{SyntaxNode: node})
 	} else {
@@ -579,7 +579,7 @@ func MathAttach_default() *MathAttach {
 // --- [ MathPrimes ] ----------------------------------------------------------
 
 // from_untyped
-func (MathPrimes) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathPrimes) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathPrimes {
 		return option.Some[AstNode](&MathPrimes{SyntaxNode: node})
 	} else {
@@ -599,7 +599,7 @@ func MathPrimes_default() *MathPrimes {
 // --- [ MathFrac ] ------------------------------------------------------------
 
 // from_untyped
-func (MathFrac) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathFrac) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathFrac {
 		return option.Some[AstNode](&MathFrac{SyntaxNode: node})
 	} else {
@@ -619,7 +619,7 @@ func MathFrac_default() *MathFrac {
 // --- [ MathRoot ] ------------------------------------------------------------
 
 // from_untyped
-func (MathRoot) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathRoot) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathRoot {
 		return option.Some[AstNode](&MathRoot{SyntaxNode: node})
 	} else {
@@ -639,7 +639,7 @@ func MathRoot_default() *MathRoot {
 // --- [ Ident ] ---------------------------------------------------------------
 
 // from_untyped
-func (Ident) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Ident) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindIdent {
 		return option.Some[AstNode](&Ident{SyntaxNode: node})
 	} else {
@@ -659,7 +659,7 @@ func Ident_default() *Ident {
 // --- [ None ] ----------------------------------------------------------------
 
 // from_untyped
-func (None) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*None) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNone {
 		return option.Some[AstNode](&None{SyntaxNode: node})
 	} else {
@@ -679,7 +679,7 @@ func None_default() *None {
 // --- [ Auto ] ----------------------------------------------------------------
 
 // from_untyped
-func (Auto) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Auto) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindAuto {
 		return option.Some[AstNode](&Auto{SyntaxNode: node})
 	} else {
@@ -699,7 +699,7 @@ func Auto_default() *Auto {
 // --- [ Bool ] ----------------------------------------------------------------
 
 // from_untyped
-func (Bool) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Bool) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindBool {
 		return option.Some[AstNode](&Bool{SyntaxNode: node})
 	} else {
@@ -719,7 +719,7 @@ func Bool_default() *Bool {
 // --- [ Int ] -----------------------------------------------------------------
 
 // from_untyped
-func (Int) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Int) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindInt {
 		return option.Some[AstNode](&Int{SyntaxNode: node})
 	} else {
@@ -739,7 +739,7 @@ func Int_default() *Int {
 // --- [ Float ] ---------------------------------------------------------------
 
 // from_untyped
-func (Float) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Float) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindFloat {
 		return option.Some[AstNode](&Float{SyntaxNode: node})
 	} else {
@@ -759,7 +759,7 @@ func Float_default() *Float {
 // --- [ Numeric ] -------------------------------------------------------------
 
 // from_untyped
-func (Numeric) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Numeric) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNumeric {
 		return option.Some[AstNode](&Numeric{SyntaxNode: node})
 	} else {
@@ -779,7 +779,7 @@ func Numeric_default() *Numeric {
 // --- [ Str ] -----------------------------------------------------------------
 
 // from_untyped
-func (Str) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Str) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindStr {
 		return option.Some[AstNode](&Str{SyntaxNode: node})
 	} else {
@@ -799,7 +799,7 @@ func Str_default() *Str {
 // --- [ CodeBlock ] -----------------------------------------------------------
 
 // from_untyped
-func (CodeBlock) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*CodeBlock) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindCodeBlock {
 		return option.Some[AstNode](&CodeBlock{SyntaxNode: node})
 	} else {
@@ -819,7 +819,7 @@ func CodeBlock_default() *CodeBlock {
 // --- [ Code ] ----------------------------------------------------------------
 
 // from_untyped
-func (Code) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Code) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindCode {
 		return option.Some[AstNode](&Code{SyntaxNode: node})
 	} else {
@@ -839,7 +839,7 @@ func Code_default() *Code {
 // --- [ ContentBlock ] --------------------------------------------------------
 
 // from_untyped
-func (ContentBlock) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ContentBlock) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindContentBlock {
 		return option.Some[AstNode](&ContentBlock{SyntaxNode: node})
 	} else {
@@ -859,7 +859,7 @@ func ContentBlock_default() *ContentBlock {
 // --- [ Parenthesized ] -------------------------------------------------------
 
 // from_untyped
-func (Parenthesized) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Parenthesized) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindParenthesized {
 		return option.Some[AstNode](&Parenthesized{SyntaxNode: node})
 	} else {
@@ -879,7 +879,7 @@ func Parenthesized_default() *Parenthesized {
 // --- [ Array ] ---------------------------------------------------------------
 
 // from_untyped
-func (Array) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Array) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindArray {
 		return option.Some[AstNode](&Array{SyntaxNode: node})
 	} else {
@@ -899,7 +899,7 @@ func Array_default() *Array {
 // --- [ Dict ] ----------------------------------------------------------------
 
 // from_untyped
-func (Dict) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Dict) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindDict {
 		return option.Some[AstNode](&Dict{SyntaxNode: node})
 	} else {
@@ -919,7 +919,7 @@ func Dict_default() *Dict {
 // --- [ Named ] ---------------------------------------------------------------
 
 // from_untyped
-func (Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNamed {
 		return option.Some[AstNode](&Named{SyntaxNode: node})
 	} else {
@@ -939,7 +939,7 @@ func Named_default() *Named {
 // --- [ Keyed ] ---------------------------------------------------------------
 
 // from_untyped
-func (Keyed) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Keyed) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindKeyed {
 		return option.Some[AstNode](&Keyed{SyntaxNode: node})
 	} else {
@@ -959,7 +959,7 @@ func Keyed_default() *Keyed {
 // --- [ Spread ] --------------------------------------------------------------
 
 // from_untyped
-func (Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpread {
 		return option.Some[AstNode](&Spread{SyntaxNode: node})
 	} else {
@@ -979,7 +979,7 @@ func Spread_default() *Spread {
 // --- [ Unary ] ---------------------------------------------------------------
 
 // from_untyped
-func (Unary) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Unary) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindUnary {
 		return option.Some[AstNode](&Unary{SyntaxNode: node})
 	} else {
@@ -999,7 +999,7 @@ func Unary_default() *Unary {
 // --- [ Binary ] --------------------------------------------------------------
 
 // from_untyped
-func (Binary) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Binary) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindBinary {
 		return option.Some[AstNode](&Binary{SyntaxNode: node})
 	} else {
@@ -1019,7 +1019,7 @@ func Binary_default() *Binary {
 // --- [ FieldAccess ] ---------------------------------------------------------
 
 // from_untyped
-func (FieldAccess) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*FieldAccess) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindFieldAccess {
 		return option.Some[AstNode](&FieldAccess{SyntaxNode: node})
 	} else {
@@ -1039,7 +1039,7 @@ func FieldAccess_default() *FieldAccess {
 // --- [ FuncCall ] ------------------------------------------------------------
 
 // from_untyped
-func (FuncCall) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*FuncCall) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindFuncCall {
 		return option.Some[AstNode](&FuncCall{SyntaxNode: node})
 	} else {
@@ -1059,7 +1059,7 @@ func FuncCall_default() *FuncCall {
 // --- [ Args ] ----------------------------------------------------------------
 
 // from_untyped
-func (Args) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Args) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindArgs {
 		return option.Some[AstNode](&Args{SyntaxNode: node})
 	} else {
@@ -1079,7 +1079,7 @@ func Args_default() *Args {
 // --- [ Closure ] -------------------------------------------------------------
 
 // from_untyped
-func (Closure) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Closure) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindClosure {
 		return option.Some[AstNode](&Closure{SyntaxNode: node})
 	} else {
@@ -1099,7 +1099,7 @@ func Closure_default() *Closure {
 // --- [ Params ] --------------------------------------------------------------
 
 // from_untyped
-func (Params) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Params) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindParams {
 		return option.Some[AstNode](&Params{SyntaxNode: node})
 	} else {
@@ -1119,7 +1119,7 @@ func Params_default() *Params {
 // --- [ Underscore ] ----------------------------------------------------------
 
 // from_untyped
-func (Underscore) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Underscore) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindUnderscore {
 		return option.Some[AstNode](&Underscore{SyntaxNode: node})
 	} else {
@@ -1139,7 +1139,7 @@ func Underscore_default() *Underscore {
 // --- [ Destructuring ] -------------------------------------------------------
 
 // from_untyped
-func (Destructuring) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Destructuring) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindDestructuring {
 		return option.Some[AstNode](&Destructuring{SyntaxNode: node})
 	} else {
@@ -1159,7 +1159,7 @@ func Destructuring_default() *Destructuring {
 // --- [ LetBinding ] ----------------------------------------------------------
 
 // from_untyped
-func (LetBinding) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*LetBinding) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindLetBinding {
 		return option.Some[AstNode](&LetBinding{SyntaxNode: node})
 	} else {
@@ -1179,7 +1179,7 @@ func LetBinding_default() *LetBinding {
 // --- [ DestructAssignment ] --------------------------------------------------
 
 // from_untyped
-func (DestructAssignment) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DestructAssignment) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindDestructAssignment {
 		return option.Some[AstNode](&DestructAssignment{SyntaxNode: node})
 	} else {
@@ -1199,7 +1199,7 @@ func DestructAssignment_default() *DestructAssignment {
 // --- [ SetRule ] -------------------------------------------------------------
 
 // from_untyped
-func (SetRule) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*SetRule) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSetRule {
 		return option.Some[AstNode](&SetRule{SyntaxNode: node})
 	} else {
@@ -1219,7 +1219,7 @@ func SetRule_default() *SetRule {
 // --- [ ShowRule ] ------------------------------------------------------------
 
 // from_untyped
-func (ShowRule) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ShowRule) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindShowRule {
 		return option.Some[AstNode](&ShowRule{SyntaxNode: node})
 	} else {
@@ -1239,7 +1239,7 @@ func ShowRule_default() *ShowRule {
 // --- [ Contextual ] ----------------------------------------------------------
 
 // from_untyped
-func (Contextual) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Contextual) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindContextual {
 		return option.Some[AstNode](&Contextual{SyntaxNode: node})
 	} else {
@@ -1259,7 +1259,7 @@ func Contextual_default() *Contextual {
 // --- [ Conditional ] ---------------------------------------------------------
 
 // from_untyped
-func (Conditional) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Conditional) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindConditional {
 		return option.Some[AstNode](&Conditional{SyntaxNode: node})
 	} else {
@@ -1279,7 +1279,7 @@ func Conditional_default() *Conditional {
 // --- [ WhileLoop ] -----------------------------------------------------------
 
 // from_untyped
-func (WhileLoop) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*WhileLoop) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindWhileLoop {
 		return option.Some[AstNode](&WhileLoop{SyntaxNode: node})
 	} else {
@@ -1299,7 +1299,7 @@ func WhileLoop_default() *WhileLoop {
 // --- [ ForLoop ] -------------------------------------------------------------
 
 // from_untyped
-func (ForLoop) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ForLoop) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindForLoop {
 		return option.Some[AstNode](&ForLoop{SyntaxNode: node})
 	} else {
@@ -1319,7 +1319,7 @@ func ForLoop_default() *ForLoop {
 // --- [ ModuleImport ] --------------------------------------------------------
 
 // from_untyped
-func (ModuleImport) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ModuleImport) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindModuleImport {
 		return option.Some[AstNode](&ModuleImport{SyntaxNode: node})
 	} else {
@@ -1339,7 +1339,7 @@ func ModuleImport_default() *ModuleImport {
 // --- [ ImportItems ] ---------------------------------------------------------
 
 // from_untyped
-func (ImportItems) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ImportItems) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindImportItems {
 		return option.Some[AstNode](&ImportItems{SyntaxNode: node})
 	} else {
@@ -1359,7 +1359,7 @@ func ImportItems_default() *ImportItems {
 // --- [ ImportItemPath ] ------------------------------------------------------
 
 // from_untyped
-func (ImportItemPath) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ImportItemPath) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindImportItemPath {
 		return option.Some[AstNode](&ImportItemPath{SyntaxNode: node})
 	} else {
@@ -1379,7 +1379,7 @@ func ImportItemPath_default() *ImportItemPath {
 // --- [ RenamedImportItem ] ---------------------------------------------------
 
 // from_untyped
-func (RenamedImportItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*RenamedImportItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindRenamedImportItem {
 		return option.Some[AstNode](&RenamedImportItem{SyntaxNode: node})
 	} else {
@@ -1399,7 +1399,7 @@ func RenamedImportItem_default() *RenamedImportItem {
 // --- [ ModuleInclude ] -------------------------------------------------------
 
 // from_untyped
-func (ModuleInclude) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ModuleInclude) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindModuleInclude {
 		return option.Some[AstNode](&ModuleInclude{SyntaxNode: node})
 	} else {
@@ -1419,7 +1419,7 @@ func ModuleInclude_default() *ModuleInclude {
 // --- [ LoopBreak ] -----------------------------------------------------------
 
 // from_untyped
-func (LoopBreak) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*LoopBreak) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindLoopBreak {
 		return option.Some[AstNode](&LoopBreak{SyntaxNode: node})
 	} else {
@@ -1439,7 +1439,7 @@ func LoopBreak_default() *LoopBreak {
 // --- [ LoopContinue ] --------------------------------------------------------
 
 // from_untyped
-func (LoopContinue) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*LoopContinue) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindLoopContinue {
 		return option.Some[AstNode](&LoopContinue{SyntaxNode: node})
 	} else {
@@ -1459,7 +1459,7 @@ func LoopContinue_default() *LoopContinue {
 // --- [ FuncReturn ] ----------------------------------------------------------
 
 // from_untyped
-func (FuncReturn) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*FuncReturn) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindFuncReturn {
 		return option.Some[AstNode](&FuncReturn{SyntaxNode: node})
 	} else {
@@ -1481,9 +1481,9 @@ func FuncReturn_default() *FuncReturn {
 // --- [ ArrayItem_Pos ] -------------------------------------------------------
 
 // from_untyped
-func (ArrayItem_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*ArrayItem_Pos](node).Get(); ok {
-		return option.Some[AstNode](n)
+func (*ArrayItem_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+	if n, ok := SyntaxNode_cast[Expr](node).Get(); ok {
+		return option.Some[AstNode](&ArrayItem_Pos{expr: n})
 	}
 	return option.None[AstNode]()
 }
@@ -1495,7 +1495,7 @@ func (node *ArrayItem_Pos) to_untyped() *SyntaxNode {
 // --- [ ArrayItem_Spread ] ----------------------------------------------------
 
 // from_untyped
-func (ArrayItem_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ArrayItem_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpread {
 		return option.Some[AstNode](&ArrayItem_Spread{spread: &Spread{SyntaxNode: node}})
 	} else {
@@ -1512,7 +1512,7 @@ func (node *ArrayItem_Spread) to_untyped() *SyntaxNode {
 // --- [ DictItem_Named ] ------------------------------------------------------
 
 // from_untyped
-func (DictItem_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DictItem_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNamed {
 		return option.Some[AstNode](&DictItem_Named{item: &Named{SyntaxNode: node}})
 	} else {
@@ -1527,7 +1527,7 @@ func (node *DictItem_Named) to_untyped() *SyntaxNode {
 // --- [ DictItem_Keyed ] ------------------------------------------------------
 
 // from_untyped
-func (DictItem_Keyed) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DictItem_Keyed) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindKeyed {
 		return option.Some[AstNode](&DictItem_Keyed{item: &Keyed{SyntaxNode: node}})
 	} else {
@@ -1542,7 +1542,7 @@ func (node *DictItem_Keyed) to_untyped() *SyntaxNode {
 // --- [ DictItem_Spread ] -----------------------------------------------------
 
 // from_untyped
-func (DictItem_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DictItem_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpread {
 		return option.Some[AstNode](&DictItem_Spread{item: &Spread{SyntaxNode: node}})
 	} else {
@@ -1559,7 +1559,7 @@ func (node *DictItem_Spread) to_untyped() *SyntaxNode {
 // --- [ Arg_Named ] -----------------------------------------------------------
 
 // from_untyped
-func (Arg_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Arg_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNamed {
 		return option.Some[AstNode](&Arg_Named{arg: &Named{SyntaxNode: node}})
 	} else {
@@ -1574,7 +1574,7 @@ func (node *Arg_Named) to_untyped() *SyntaxNode {
 // --- [ Arg_Spread ] ----------------------------------------------------------
 
 // from_untyped
-func (Arg_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Arg_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpread {
 		return option.Some[AstNode](&Arg_Spread{arg: &Spread{SyntaxNode: node}})
 	} else {
@@ -1589,9 +1589,9 @@ func (node *Arg_Spread) to_untyped() *SyntaxNode {
 // --- [ Arg_Pos ] -------------------------------------------------------------
 
 // from_untyped
-func (Arg_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*Arg_Pos](node).Get(); ok {
-		return option.Some[AstNode](n)
+func (*Arg_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+	if n, ok := SyntaxNode_cast[Expr](node).Get(); ok {
+		return option.Some[AstNode](&Arg_Pos{arg: n})
 	}
 	return option.None[AstNode]()
 }
@@ -1605,7 +1605,7 @@ func (node *Arg_Pos) to_untyped() *SyntaxNode {
 // --- [ Param_Named ] ---------------------------------------------------------
 
 // from_untyped
-func (Param_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Param_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNamed {
 		return option.Some[AstNode](&Param_Named{param: &Named{SyntaxNode: node}})
 	} else {
@@ -1620,7 +1620,7 @@ func (node *Param_Named) to_untyped() *SyntaxNode {
 // --- [ Param_Spread ] --------------------------------------------------------
 
 // from_untyped
-func (Param_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Param_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpread {
 		return option.Some[AstNode](&Param_Spread{param: &Spread{SyntaxNode: node}})
 	} else {
@@ -1635,9 +1635,9 @@ func (node *Param_Spread) to_untyped() *SyntaxNode {
 // --- [ Param_Pos ] -----------------------------------------------------------
 
 // from_untyped
-func (Param_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*Param_Pos](node).Get(); ok {
-		return option.Some[AstNode](n)
+func (*Param_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+	if n, ok := SyntaxNode_cast[Pattern](node).Get(); ok {
+		return option.Some[AstNode](&Param_Pos{param: n})
 	}
 	return option.None[AstNode]()
 }
@@ -1651,9 +1651,9 @@ func (node *Param_Pos) to_untyped() *SyntaxNode {
 // --- [ Pattern_Normal ] ------------------------------------------------------
 
 // from_untyped
-func (Pattern_Normal) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*Pattern_Normal](node).Get(); ok {
-		return option.Some[AstNode](n)
+func (*Pattern_Normal) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+	if n, ok := SyntaxNode_cast[Expr](node).Get(); ok {
+		return option.Some[AstNode](&Pattern_Normal{expr: n})
 	}
 	return option.None[AstNode]()
 }
@@ -1679,7 +1679,7 @@ func Pattern_Normal_default() *Pattern_Normal {
 // --- [ Pattern_Placeholder ] -------------------------------------------------
 
 // from_untyped
-func (Pattern_Placeholder) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Pattern_Placeholder) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindUnderscore {
 		return option.Some[AstNode](&Pattern_Placeholder{pattern: &Underscore{SyntaxNode: node}})
 	} else {
@@ -1699,7 +1699,7 @@ func (node *Pattern_Placeholder) bindings() []*Ident {
 // --- [ Pattern_Parenthesized ] -----------------------------------------------
 
 // from_untyped
-func (Pattern_Parenthesized) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Pattern_Parenthesized) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindParenthesized {
 		return option.Some[AstNode](&Pattern_Parenthesized{pattern: &Parenthesized{SyntaxNode: node}})
 	} else {
@@ -1719,7 +1719,7 @@ func (node *Pattern_Parenthesized) bindings() []*Ident {
 // --- [ Pattern_Destructuring ] -----------------------------------------------
 
 // from_untyped
-func (Pattern_Destructuring) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Pattern_Destructuring) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindDestructuring {
 		return option.Some[AstNode](&Pattern_Destructuring{pattern: &Destructuring{SyntaxNode: node}})
 	} else {
@@ -1741,9 +1741,9 @@ func (node *Pattern_Destructuring) bindings() []*Ident {
 // --- [ DestructuringItem_Pattern ] -------------------------------------------
 
 // from_untyped
-func (DestructuringItem_Pattern) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*DestructuringItem_Pattern](node).Get(); ok {
-		return option.Some[AstNode](n)
+func (*DestructuringItem_Pattern) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+	if n, ok := SyntaxNode_cast[Pattern](node).Get(); ok {
+		return option.Some[AstNode](&DestructuringItem_Pattern{pattern: n})
 	}
 	return option.None[AstNode]()
 }
@@ -1755,7 +1755,7 @@ func (node *DestructuringItem_Pattern) to_untyped() *SyntaxNode {
 // --- [ DestructuringItem_Named ] ---------------------------------------------
 
 // from_untyped
-func (DestructuringItem_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DestructuringItem_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNamed {
 		return option.Some[AstNode](&DestructuringItem_Named{named: &Named{SyntaxNode: node}})
 	} else {
@@ -1770,7 +1770,7 @@ func (node *DestructuringItem_Named) to_untyped() *SyntaxNode {
 // --- [ DestructuringItem_Spread ] ---------------------------------------------
 
 // from_untyped
-func (DestructuringItem_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DestructuringItem_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpread {
 		return option.Some[AstNode](&DestructuringItem_Spread{spread: &Spread{SyntaxNode: node}})
 	} else {
-- 
2.43.0


From 66a93e859a981d9daf3f4124ae16587afe72f994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:57 +0000
Subject: [PATCH 14/49] fix: decode decimal integers and numerics with an
 exponent

Int.get parsed an empty string for decimals, and Numeric.get counted the
exponent's letter as part of the unit.
---
 typst/syntax/ast.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index e905bf8..cba7f2b 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1228,6 +1228,7 @@ func (node *Int) get() int64 {
 		s = strings.TrimPrefix(text, "0b")
 		base = 2
 	default:
+		s = text
 		base = 10
 	}
 	x, err := strconv.ParseInt(s, base, 64)
@@ -1269,9 +1270,10 @@ func (node *Numeric) get() (float64, Unit) {
 	chars := []rune(text)
 	count := 0
 	for _, c := range slices.Backward(chars) {
-		if stdx.IsAsciiLowercase(c) || c == '%' {
-			count++
+		if !stdx.IsAsciiLowercase(c) && c != '%' {
+			break
 		}
+		count++
 	}
 	split := len(text) - count
 	value_str := text[:split]
-- 
2.43.0


From b8ba2566157f645e4f0d097360efd2aa5dde430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:57 +0000
Subject: [PATCH 15/49] fix: Binary.op and Args.trailing_comma looked at the
 wrong nodes

Binary.op checked its own kind rather than that of the child, so 'not in'
was reported as 'in'; trailing_comma reported any comma, not a trailing
one.
---
 typst/syntax/ast.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index cba7f2b..216eb2c 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1765,7 +1765,7 @@ type Binary struct {
 func (node *Binary) op() BinOp {
 	not := false
 	for _, child := range node.children() {
-		switch node.kind() {
+		switch child.kind() {
 		case SyntaxKindNot:
 			not = true
 			continue
@@ -2125,17 +2125,14 @@ func (node *Args) items() []Arg {
 func (node *Args) trailing_comma() bool {
 	children := node.children()
 	for i, child := range slices.Backward(children) {
-		if i == 0 {
-			continue // skip first
+		if i == len(children)-1 {
+			continue // skip last
 		}
 		kind := child.kind()
-		// TODO: double-check that conversion from Rust to Go is correct.
 		if kind.IsTrivia() {
 			continue
 		}
-		if kind == SyntaxKindComma {
-			return true
-		}
+		return kind == SyntaxKindComma
 	}
 	return false
 }
-- 
2.43.0


From 4e6c47e128bf542681741cf866b8050bcc26ae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:57 +0000
Subject: [PATCH 16/49] fix: skip trivia in AST accessors, and do not take a
 pattern for its value

The condition of a set rule, the selector of a show rule, the iterable of
a for loop and the new name of an import were only found without trivia
in between (or never), and 'let x' reported its pattern as its value.
---
 typst/syntax/ast.go | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 216eb2c..f00b5a7 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -2483,19 +2483,8 @@ func (node *LetBinding) init() option.Option[Expr] {
 	case *LetBindingKind_Normal:
 		pattern := let.pattern
 		switch pattern.(type) {
-		case *Pattern_Normal:
-			// TODO: double-check translation from Rust to Go.
-			var exprs []Expr
-			for _, child := range node.children() {
-				if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
-					exprs = append(exprs, expr)
-				}
-			}
-			if len(exprs) > 1 {
-				return option.Some(exprs[1])
-			}
-		case *Pattern_Parenthesized:
-			// TODO: double-check translation from Rust to Go.
+		case *Pattern_Normal, *Pattern_Parenthesized:
+			// The first expression is the pattern itself.
 			var exprs []Expr
 			for _, child := range node.children() {
 				if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
@@ -2505,6 +2494,7 @@ func (node *LetBinding) init() option.Option[Expr] {
 			if len(exprs) > 1 {
 				return option.Some(exprs[1])
 			}
+			return option.None[Expr]()
 		}
 		return SyntaxNode_try_cast_first[Expr](node.SyntaxNode)
 	case *LetBindingKind_Closure:
@@ -2552,7 +2542,9 @@ func (node *SetRule) condition() option.Option[Expr] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr := SyntaxNode_cast[Expr](child); expr.IsPresent() {
+				return expr
+			}
 		}
 		if child.kind() == SyntaxKindIf {
 			found = true
@@ -2574,7 +2566,9 @@ func (node *ShowRule) selector() option.Option[Expr] {
 	found := false
 	for _, child := range slices.Backward(children) {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr := SyntaxNode_cast[Expr](child); expr.IsPresent() {
+				return expr
+			}
 		}
 		if child.kind() == SyntaxKindColon {
 			found = true
@@ -2680,8 +2674,6 @@ func (node *ForLoop) iterable() Expr {
 		if found {
 			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
 				return expr
-			} else {
-				return Expr_default() // default value
 			}
 		}
 		if child.kind() == SyntaxKindIn {
@@ -2769,7 +2761,9 @@ func (node *ModuleImport) new_name() option.Option[*Ident] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			SyntaxNode_cast[*Ident](child)
+			if ident := SyntaxNode_cast[*Ident](child); ident.IsPresent() {
+				return ident
+			}
 		}
 		if child.kind() == SyntaxKindAs {
 			found = true
-- 
2.43.0


From 181f374bb8da758ce1058c3cff863fd912b1cb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 17/49] fix: intern file IDs by package and path, not by
 pointer

NewFileID keyed its map by pointers and never interned a path without
a package, so equal files got different IDs.
---
 typst/syntax/file.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/typst/syntax/file.go b/typst/syntax/file.go
index 7e11d17..37bd882 100644
--- a/typst/syntax/file.go
+++ b/typst/syntax/file.go
@@ -12,13 +12,13 @@ import (
 
 // interner is the global package-path interner.
 var interner = &Interner{
-	toID:   make(map[Pair]FileID),
+	toID:   make(map[pairKey]FileID),
 	fromID: nil,
 }
 
 // Interner is a package-path interner.
 type Interner struct {
-	toID   map[Pair]FileID
+	toID   map[pairKey]FileID
 	fromID []Pair // maps from id-1 to Pair (since id is NonZero).
 
 	sync.RWMutex
@@ -30,6 +30,24 @@ type Pair struct {
 	VPath *VirtualPath
 }
 
+// pairKey is the comparable contents of a pair. A pair itself holds pointers,
+// so equal pairs are distinct as map keys.
+type pairKey struct {
+	inPackage bool
+	spec      PackageSpec
+	path      string
+}
+
+// key returns the contents of the pair for use as map key.
+func (pair Pair) key() pairKey {
+	key := pairKey{path: pair.VPath.Path}
+	if spec, ok := pair.Spec.Get(); ok {
+		key.inPackage = true
+		key.spec = *spec
+	}
+	return key
+}
+
 // FileID identifies a file in a project or package.
 //
 // This type is globally interned and thus cheap to copy, compare, and hash.
@@ -43,10 +61,13 @@ func NewFileID(spec option.Option[*PackageSpec], vpath *VirtualPath) FileID {
 	pair := Pair{Spec: spec, VPath: vpath}
 	interner.Lock()
 	defer interner.Unlock()
-	if id, ok := interner.toID[pair]; ok {
+	key := pair.key()
+	if id, ok := interner.toID[key]; ok {
 		return id
 	}
-	return pushPair(pair)
+	id := pushPair(pair)
+	interner.toID[key] = id
+	return id
 }
 
 // pushPair creates a new entry forever.
@@ -57,14 +78,8 @@ func pushPair(pair Pair) FileID {
 	if num == 0 {
 		panic("out of file ids") // uint16 overflow
 	}
-	id := FileID(num)
-	if _, ok := pair.Spec.Get(); ok {
-		// only add pair to map if spec exists (i.e. not a "fake" file
-		// specification)
-		interner.toID[pair] = id
-	}
 	interner.fromID = append(interner.fromID, pair)
-	return id
+	return FileID(num)
 }
 
 // NewFakeFileID creates a new unique ("fake") file specification, which is not
-- 
2.43.0


From 84fb6e98c24f077b1bfecdc0c99c0736c07ab001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:12 +0000
Subject: [PATCH 18/49] fix: make virtual paths absolute and normalized, and
 print them

VirtualPath and FileID.VPath document an absolute, normalized path; the
path was kept as given, joining an absolute path appended it, and
FileID.String printed a pointer to a struct.
---
 typst/syntax/path.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/typst/syntax/path.go b/typst/syntax/path.go
index 0423ab4..b3dd01b 100644
--- a/typst/syntax/path.go
+++ b/typst/syntax/path.go
@@ -14,12 +14,20 @@ type VirtualPath struct {
 // starting from the root.
 func NewVirtualPath(path string) *VirtualPath {
 	return &VirtualPath{
-		Path: path,
+		Path: filepath.Clean("/" + path),
 	}
 }
 
+// String returns the path.
+func (vpath *VirtualPath) String() string {
+	return vpath.Path
+}
+
 // Join resolves a path relative to this virtual path.
 func (vpath *VirtualPath) Join(path string) *VirtualPath {
+	if filepath.IsAbs(path) {
+		return NewVirtualPath(path)
+	}
 	dir := filepath.Dir(vpath.Path)
 	new_path := filepath.Join(dir, path)
 	return NewVirtualPath(new_path)
-- 
2.43.0


From 93bb26b34caf47cb4fa384c6fe9c6c5b0b34aa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 19/49] fix: lex a dot which ends the text as part of the
 number before it

---
 typst/syntax/lexer.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 5443436..a2b5510 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -1044,12 +1044,10 @@ func (lexer *Lexer) number(start uint, first_c rune) SyntaxKind {
 		if first_c == '.' {
 			is_float = true // We already ate the trailing digits above.
 		} else if !lexer.s.At("..") {
-			if c, ok := lexer.s.Scout(1); ok {
-				if !is_id_start(c) {
-					if lexer.s.EatIf(".") {
-						is_float = true
-						lexer.s.EatWhileFunc(stdx.IsAsciiDigit)
-					}
+			if c, ok := lexer.s.Scout(1); !ok || !is_id_start(c) {
+				if lexer.s.EatIf(".") {
+					is_float = true
+					lexer.s.EatWhileFunc(stdx.IsAsciiDigit)
 				}
 			}
 		}
-- 
2.43.0


From 0267de2eb214920d84250ba4be087170276481a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 20/49] fix: take a float out of range for infinity, not for
 malformed

---
 typst/syntax/ast.go   | 4 ++--
 typst/syntax/lexer.go | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index f00b5a7..8c634e6 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1250,7 +1250,7 @@ type Float struct {
 func (node *Float) get() float64 {
 	text := node.SyntaxNode.text()
 	x, err := strconv.ParseFloat(text, 64)
-	if err != nil {
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
 		// TODO: report warning?
 		return 0.0 // default
 	}
@@ -1279,7 +1279,7 @@ func (node *Numeric) get() (float64, Unit) {
 	value_str := text[:split]
 	unit_str := text[split:]
 	value, err := strconv.ParseFloat(value_str, 64)
-	if err != nil {
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
 		// TODO: report warning?
 		value = 0.0 // default
 	}
diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index a2b5510..7a0bd93 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -1436,7 +1436,8 @@ func GraphemeLen(str string) (int, bool) {
 
 func valid_float(str string) bool {
 	_, err := strconv.ParseFloat(str, 64)
-	return err == nil
+	// A value out of range is infinity, not a malformed number.
+	return err == nil || errors.Is(err, strconv.ErrRange)
 }
 
 func valid_uint(str string) bool {
-- 
2.43.0


From ef9d94dbeef22022dc238909d51c189edb22b58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 21/49] fix: report a duplicate empty string as dictionary key

---
 typst/syntax/parser.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/typst/syntax/parser.go b/typst/syntax/parser.go
index 5f5581f..1f15eb5 100644
--- a/typst/syntax/parser.go
+++ b/typst/syntax/parser.go
@@ -1304,16 +1304,19 @@ func array_or_dict_item(p *Parser, state *GroupState) {
 			pair_kind = SyntaxKindKeyed
 		}
 
-		var key string
+		var (
+			key     string
+			has_key bool
+		)
 		if expr, ok := SyntaxNode_cast[Expr](node).Get(); ok {
 			switch expr := expr.(type) {
 			case *Ident:
-				key = expr.get()
+				key, has_key = expr.get(), true
 			case *Str:
-				key = expr.get()
+				key, has_key = expr.get(), true
 			}
 		}
-		if len(key) > 0 {
+		if has_key {
 			if !map_insert(state.seen, key) {
 				node.convert_to_error(fmt.Sprintf("duplicate key: %v", key))
 			}
-- 
2.43.0


From f534ca018e97b9611254d2841df70f2e6cef43a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 22/49] fix: trim and dedent raw blocks as documented

The documented treatment of the first line, the common indentation and
the last line of a raw block was left as a TODO.
---
 typst/syntax/lexer.go | 132 +++++++++++++++++++-----------------------
 1 file changed, 60 insertions(+), 72 deletions(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 7a0bd93..a0191b0 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -2,6 +2,7 @@ package syntax
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 	"unicode"
@@ -420,83 +421,65 @@ func (lexer *Lexer) blocky_raw(inner_end uint, push_raw func(SyntaxKind, *scanne
 	// The rest of the function operates on the lines between the backticks.
 	lines := split_newlines(lexer.s.To(inner_end))
 
-	// Determine dedent level.
-	// TODO: figure out how to handle.
-	const dedent = 0 // TODO: remove
-	/*
-		dedent := lines
-			.iter()
-			.skip(1)
-			.filter(|line| !line.chars().all(stdx.IsWhitespace))
-			// The line with the closing ``` is always taken into account
-			.chain(lines.last())
-			.map(|line| line.chars().take_while(|c| c.is_whitespace()).count())
-			.min()
-			.unwrap_or(0);
-	*/
-
-	// TODO: figure out how to handle.
-	/*
-		// Trim whitespace from the last line. Will be added as a `RawTrimmed`
-		// kind by the check for `lexer.s.cursor() != inner_end` below.
-		if lines.last().is_some_and(|last| last.chars().all(stdx.IsWhitespace)) {
-			lines.pop();
-		} else if let Some(last) = lines.last_mut() {
-			// If last line ends in a backtick, try to trim a single space. This
-			// check must happen before we add the first line since the last and
-			// first lines might be the same.
-			if last.trim_end().ends_with('`') {
-				*last = last.strip_suffix(' ').unwrap_or(last);
-			}
+	// Determine dedent level. The line with the closing ``` is always taken into
+	// account.
+	var dedents []uint
+	for i, line := range lines {
+		last := i == len(lines)-1
+		if last || (i > 0 && !is_all_whitespace(line)) {
+			rest := strings.TrimLeftFunc(line, stdx.IsWhitespace)
+			indent := line[:len(line)-len(rest)]
+			dedents = append(dedents, uint(utf8.RuneCountInString(indent)))
 		}
-
-		let mut lines = lines.into_iter();
-
-		// Handle the first line: trim if all whitespace, or trim a single space
-		// at the start. Note that the first line does not affect the dedent
-		// value.
-		if let Some(first_line) = lines.next() {
-			if first_line.chars().all(stdx.IsWhitespace) {
-				scanner_advance(lexer.s, first_line.len())
-				// This is the only spot we advance the scanner, but don't
-				// immediately call `push_raw`. But the rest of the function
-				// ensures we will always add this text to a `RawTrimmed` later.
-				debug_assert!(lexer.s.cursor() != inner_end);
-				// A proof by cases follows:
-				// # First case: The loop runs
-				// If the loop runs, there must be a newline following, so
-				// `cursor != inner_end`. And if the loop runs, the first thing
-				// it does is add a trimmed element.
-				// # Second case: The final if-statement runs.
-				// To _not_ reach the loop from here, we must have only one or
-				// two lines:
-				// 1. If one line, we cannot be here, because the first and last
-				//    lines are the same, so this line will have been removed by
-				//    the check for the last line being all whitespace.
-				// 2. If two lines, the loop will run unless the last is fully
-				//    whitespace, but if it is, it will have been popped, then
-				//    the final if-statement will run because the text removed
-				//    by the last line must include at least a newline, so
-				//    `cursor != inner_end` here.
-			} else {
-				let line_end = lexer.s.cursor() + first_line.len();
-				if lexer.s.EatIf(" ") {
-					// Trim a single space after the lang tag on the first line.
-					push_raw(SyntaxKindRawTrimmed, &lexer.s);
-				}
-				// We know here that the rest of the line is non-empty.
-				lexer.s.jump(line_end);
-				push_raw(SyntaxKindText, &lexer.s);
+	}
+	dedent := slices.Min(dedents)
+
+	// Trim whitespace from the last line. Will be added as a `RawTrimmed`
+	// kind by the check for `lexer.s.Cursor() < inner_end` below.
+	if last := lines[len(lines)-1]; is_all_whitespace(last) {
+		lines = lines[:len(lines)-1]
+	} else if strings.HasSuffix(strings.TrimRightFunc(last, stdx.IsWhitespace), "`") {
+		// If last line ends in a backtick, try to trim a single space. This
+		// check must happen before we add the first line since the last and
+		// first lines might be the same.
+		lines[len(lines)-1] = strings.TrimSuffix(last, " ")
+	}
+
+	// Handle the first line: trim if all whitespace, or trim a single space
+	// at the start. Note that the first line does not affect the dedent
+	// value.
+	if len(lines) > 0 {
+		first_line := lines[0]
+		lines = lines[1:]
+		if is_all_whitespace(first_line) {
+			// This is the only spot we advance the scanner, but don't
+			// immediately call `push_raw`. But the rest of the function
+			// ensures we will always add this text to a `RawTrimmed` later.
+			scanner_advance(lexer.s, uint(len(first_line)))
+		} else {
+			line_end := lexer.s.Cursor() + uint(len(first_line))
+			if lexer.s.EatIf(" ") {
+				// Trim a single space after the lang tag on the first line.
+				push_raw(SyntaxKindRawTrimmed, lexer.s)
 			}
+			// We know here that the rest of the line is non-empty.
+			lexer.s.Jump(line_end)
+			push_raw(SyntaxKindText, lexer.s)
 		}
-	*/
+	}
+
 	// Add lines.
 	for _, line := range lines {
-		// TODO: figure out how to handle.
-		const offset = 0 // TODO: remove
-		/*
-			offset := line.chars().take(dedent).map(char::len_utf8).sum()
-		*/
+		// Byte length of the first `dedent` characters.
+		offset := uint(len(line))
+		count := uint(0)
+		for i := range line {
+			if count == dedent {
+				offset = uint(i)
+				break
+			}
+			count++
+		}
 		eat_newline(lexer.s)
 		scanner_advance(lexer.s, offset)
 		push_raw(SyntaxKindRawTrimmed, lexer.s)
@@ -511,6 +494,11 @@ func (lexer *Lexer) blocky_raw(inner_end uint, push_raw func(SyntaxKind, *scanne
 	}
 }
 
+// Whether all characters of the text are whitespace.
+func is_all_whitespace(text string) bool {
+	return len(strings.TrimLeftFunc(text, stdx.IsWhitespace)) == 0
+}
+
 // Inline raw text is split on lines with non-newlines as `Text` kinds and
 // newlines as `RawTrimmed`. Inline raw text does not dedent the text, all
 // non-newline whitespace is kept.
-- 
2.43.0


From 1a3982e6cb00569a6c9ca255a0b5bfb97ecfd246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 23/49] fix: keep the escape of a codepoint which is no
 character in Str.get

---
 typst/syntax/ast.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 8c634e6..8bcd6d1 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -85,6 +85,8 @@ import (
 	"slices"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/mewmew/typast/internal/option"
 	"github.com/mewmew/typast/internal/scanner"
@@ -1407,7 +1409,12 @@ func (node *Str) get() string {
 				out.WriteString(s.From(start))
 				continue
 			}
-			r := rune(x) // TODO: handle invalid rune (using `out.WriteString(s.From(start))`)?
+			r := rune(x)
+			if x > unicode.MaxRune || !utf8.ValidRune(r) {
+				// TODO: report warning?
+				out.WriteString(s.From(start))
+				continue
+			}
 			out.WriteRune(r)
 		default:
 			out.WriteString(s.From(start))
-- 
2.43.0


From 080d2e18a001ed76d2491e460450693758153938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 24/49] fix: reject a package manifest without a [package]
 section

Its missing contents made Validate and offline-typ dereference nil.
---
 typst/syntax/package.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typst/syntax/package.go b/typst/syntax/package.go
index 329f1a6..4a91689 100644
--- a/typst/syntax/package.go
+++ b/typst/syntax/package.go
@@ -35,6 +35,9 @@ func ParsePackageManifestFromToml(content string) (*PackageManifest, error) {
 	if err := toml.Unmarshal([]byte(content), manifest); err != nil {
 		return nil, errors.WithStack(err)
 	}
+	if manifest.Pkg == nil {
+		return nil, errors.New("package manifest is missing `[package]` section")
+	}
 	return manifest, nil
 }
 
-- 
2.43.0


From cf0661f29fec2e61fea5a8afbf052d564332f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 25/49] fix: do not crash on a syntax error within an import or
 include

---
 cmd/offline-typ/main.go | 2 +-
 cmd/update-typ/main.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 1cc30d2..f8fe675 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -235,7 +235,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				}
 				leaf = l.Repr.(*syntax.LeafNode)
 			}
-			if leaf.Kind != syntax.SyntaxKindStr {
+			if leaf == nil || leaf.Kind != syntax.SyntaxKindStr {
 				continue
 			}
 			str, err := strconv.Unquote(leaf.Text)
diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 2364a47..c75681e 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -222,7 +222,7 @@ func findOldVersions(rootNode *syntax.SyntaxNode, relTypPath string, libName str
 				}
 				leaf = l.Repr.(*syntax.LeafNode)
 			}
-			if leaf.Kind != syntax.SyntaxKindStr {
+			if leaf == nil || leaf.Kind != syntax.SyntaxKindStr {
 				continue
 			}
 			str, err := strconv.Unquote(leaf.Text)
-- 
2.43.0


From 08141f5fd08f3fcda3bde1ee6015d4a3b88baa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 26/49] fix: do not downgrade a package, nor crash when it is
 not installed

---
 cmd/update-typ/main.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index c75681e..28708d6 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -416,17 +416,13 @@ func parsePackageManifest(pkgRoot *os.Root) (*syntax.PackageManifest, error) {
 // latestSpec returns the latest version of the given package. The boolean
 // return value indicates that a new version was available.
 func latestSpec(spec *syntax.PackageSpec) (*syntax.PackageSpec, bool) {
-	verSpecs := findVersions(spec)
-	latestSpec := verSpecs[0]
-	for _, verSpec := range verSpecs[1:] {
+	latestSpec := spec
+	for _, verSpec := range findVersions(spec) {
 		if greaterThan(verSpec.Version, latestSpec.Version) {
 			latestSpec = verSpec
 		}
 	}
-	if latestSpec.Version == spec.Version {
-		return spec, false
-	}
-	return latestSpec, true
+	return latestSpec, latestSpec != spec
 }
 
 // greaterThan reports whether version a is greater than version b.
-- 
2.43.0


From 1596f320441312656813044f1091d42d40566015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 27/49] fix: find all versions next to a symlink or a directory
 of another name

---
 cmd/update-typ/main.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 28708d6..ced48ec 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -455,10 +455,16 @@ func findVersions(spec *syntax.PackageSpec) []*syntax.PackageSpec {
 			}
 			if info.IsDir() || info.Mode()&fs.ModeSymlink != 0 {
 				if path != packageDir {
+					// don't traverse into subdirectories. Note that SkipDir on a
+					// symlink would skip the directory it is in.
+					var skip error
+					if info.IsDir() {
+						skip = filepath.SkipDir
+					}
 					versionRaw := info.Name()
 					version, err := syntax.ParsePackageVersion(versionRaw)
 					if err != nil {
-						return errors.WithStack(err)
+						return skip // not a version directory.
 					}
 					verSpec := &syntax.PackageSpec{
 						Namespace: namespace,
@@ -466,8 +472,7 @@ func findVersions(spec *syntax.PackageSpec) []*syntax.PackageSpec {
 						Version:   version,
 					}
 					verSpecs = append(verSpecs, verSpec)
-					// don't traverse into subdirectories.
-					return filepath.SkipDir
+					return skip
 				}
 			}
 			return nil
-- 
2.43.0


From 3c252351d2c16658b05ae4172c0cdfa5be21c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 28/49] fix: decode string literals of imports by the rules of
 Typst, not of Go

A newline or \u{..} in a literal made the tools panic, or skip a resource.
---
 cmd/offline-typ/main.go | 12 ++----------
 cmd/update-typ/main.go  |  5 +----
 typst/syntax/ast.go     |  7 ++++++-
 3 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index f8fe675..aac4832 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -238,10 +238,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 			if leaf == nil || leaf.Kind != syntax.SyntaxKindStr {
 				continue
 			}
-			str, err := strconv.Unquote(leaf.Text)
-			if err != nil {
-				panic(err)
-			}
+			str := syntax.UnquoteStr(leaf.Text)
 			switch inner.Kind {
 			case syntax.SyntaxKindModuleImport:
 				spec, err := syntax.ParsePackageSpec(str)
@@ -487,12 +484,7 @@ func findFirstStr(nodes []*syntax.SyntaxNode) (string, bool) {
 	if !ok {
 		return "", false
 	}
-	text, err := strconv.Unquote(leaf.Text)
-	if err != nil {
-		// TODO: report error?
-		return "", false
-	}
-	return text, true
+	return syntax.UnquoteStr(leaf.Text), true
 }
 
 // findFirst returns the first node of the given kind.
diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index ced48ec..2e0557b 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -225,10 +225,7 @@ func findOldVersions(rootNode *syntax.SyntaxNode, relTypPath string, libName str
 			if leaf == nil || leaf.Kind != syntax.SyntaxKindStr {
 				continue
 			}
-			str, err := strconv.Unquote(leaf.Text)
-			if err != nil {
-				panic(err)
-			}
+			str := syntax.UnquoteStr(leaf.Text)
 			switch inner.Kind {
 			case syntax.SyntaxKindModuleImport:
 				spec, err := syntax.ParsePackageSpec(str)
diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 8bcd6d1..dc8a053 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1363,7 +1363,12 @@ type Str struct {
 
 // Get the string value with resolved escape sequences.
 func (node *Str) get() string {
-	text := node.SyntaxNode.text()
+	return UnquoteStr(node.SyntaxNode.text())
+}
+
+// UnquoteStr returns the value of the given quoted string literal, with resolved
+// escape sequences.
+func UnquoteStr(text string) string {
 	unquoted := text[1 : len(text)-1]
 	if !strings.ContainsRune(unquoted, '\\') {
 		return unquoted
-- 
2.43.0


From 243945fd7e82ea69d43237474b5f7771d4fb0e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 29/49] fix: find the style of a bibliography after other named
 arguments

---
 cmd/offline-typ/main.go | 60 +++++++++++++----------------------------
 1 file changed, 19 insertions(+), 41 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index aac4832..ef49de3 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -308,13 +308,10 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 					localResourcePaths = append(localResourcePaths, localResourcePath)
 				}
 				if foundFunc == "bibliography" {
-					if kv, ok := findFirstNamed(args.Children); ok {
-						if kv.Key == "style" {
-							cslPath := kv.Value
-							localResourcePath := getRelLocalPath(relTypDir, cslPath)
-							if exist(projectRoot, localResourcePath) {
-								localResourcePaths = append(localResourcePaths, localResourcePath)
-							}
+					if cslPath, ok := findNamedStr(args.Children, "style"); ok {
+						localResourcePath := getRelLocalPath(relTypDir, cslPath)
+						if exist(projectRoot, localResourcePath) {
+							localResourcePaths = append(localResourcePaths, localResourcePath)
 						}
 					}
 				}
@@ -358,13 +355,10 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 					localResourcePaths = append(localResourcePaths, localResourcePath)
 				}
 				if foundFunc == "bibliography" {
-					if kv, ok := findFirstNamed(args.Children); ok {
-						if kv.Key == "style" {
-							cslPath := kv.Value
-							localResourcePath := getRelLocalPath(relTypDir, cslPath)
-							if exist(projectRoot, localResourcePath) {
-								localResourcePaths = append(localResourcePaths, localResourcePath)
-							}
+					if cslPath, ok := findNamedStr(args.Children, "style"); ok {
+						localResourcePath := getRelLocalPath(relTypDir, cslPath)
+						if exist(projectRoot, localResourcePath) {
+							localResourcePaths = append(localResourcePaths, localResourcePath)
 						}
 					}
 				}
@@ -431,34 +425,18 @@ func getRelLocalPath(relTypDir, path string) string {
 	return relLocalTypPath
 }
 
-type KeyValuePair struct {
-	Key   string
-	Value string
-}
-
-// findFirstNamed returns the key-value pair of the first named pair node.
-func findFirstNamed(nodes []*syntax.SyntaxNode) (KeyValuePair, bool) {
-	node, ok := findFirst(nodes, syntax.SyntaxKindNamed)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	inner, ok := node.Repr.(*syntax.InnerNode)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	key, ok := findFirstIdent(inner.Children)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	value, ok := findFirstStr(inner.Children)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	kv := KeyValuePair{
-		Key:   key,
-		Value: value,
+// findNamedStr returns the string value of the named pair with the given key.
+func findNamedStr(nodes []*syntax.SyntaxNode, key string) (string, bool) {
+	for _, node := range nodes {
+		inner, ok := node.Repr.(*syntax.InnerNode)
+		if !ok || inner.Kind != syntax.SyntaxKindNamed {
+			continue
+		}
+		if name, ok := findFirstIdent(inner.Children); ok && name == key {
+			return findFirstStr(inner.Children)
+		}
 	}
-	return kv, true
+	return "", false
 }
 
 // findFirstIdent returns the name of the first identifier node.
-- 
2.43.0


From 259d155cec1a058913b3b88acd957374ca9f2846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 30/49] fix: keep root-relative paths of a library within the
 copied library

Within a package such a path is relative to the package, but it was left
as is, and so pointed to the root of the project in the offline copy.
---
 cmd/offline-typ/main.go | 50 +++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index ef49de3..fe1ca41 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -98,7 +98,7 @@ func main() {
 	}
 
 	// rewrite Typst files for offline use.
-	specs, err := rewrite(outRoot, projectRoot, typPath)
+	specs, err := rewrite(outRoot, projectRoot, "", typPath)
 	if err != nil {
 		log.Fatalf("%+v", err)
 	}
@@ -171,8 +171,9 @@ var (
 	resDone = make(map[string]bool)
 )
 
-// rewrite rewrites the given Typst file for offline use.
-func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.PackageSpec, error) {
+// rewrite rewrites the given Typst file for offline use. The libDir specifies the
+// project-rooted directory of the library the file belongs to, if any.
+func rewrite(outRoot, projectRoot *os.Root, libDir, relTypPath string) ([]*syntax.PackageSpec, error) {
 	absTypPath := filepath.Join(projectRoot.Name(), relTypPath)
 	if typDone[absTypPath] {
 		if verbose {
@@ -206,6 +207,14 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 		localResourcePaths []string
 	)
 
+	// rebase prefixes an absolute path, which is relative to the root of the
+	// library it is used in, with the directory the library is copied to.
+	rebase := func(leaf *syntax.LeafNode, path string) {
+		if len(libDir) > 0 && filepath.IsAbs(path) {
+			leaf.Text = strconv.Quote(libDir + path)
+		}
+	}
+
 	// walk CST tree.
 	visitImports := func(n any) bool {
 		inner, ok := n.(*syntax.InnerNode)
@@ -245,6 +254,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				if err != nil {
 					// NOTE: handle local import path e.g. `#import "foo/bar.typ"`
 					path := str
+					rebase(leaf, path)
 					localTypPath := getRelLocalPath(relTypDir, path)
 					localTypPaths = append(localTypPaths, localTypPath)
 					return true // done with inner node
@@ -259,6 +269,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				return true // done with inner node
 			case syntax.SyntaxKindModuleInclude:
 				path := str
+				rebase(leaf, path)
 				localTypPath := getRelLocalPath(relTypDir, path)
 				localTypPaths = append(localTypPaths, localTypPath)
 				return true // done with inner node
@@ -303,14 +314,16 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				if args.Kind != syntax.SyntaxKindArgs {
 					continue
 				}
-				if path, ok := findFirstStr(args.Children); ok {
+				if leaf, path, ok := findFirstStr(args.Children); ok {
+					rebase(leaf, path)
 					localResourcePath := getRelLocalPath(relTypDir, path)
 					localResourcePaths = append(localResourcePaths, localResourcePath)
 				}
 				if foundFunc == "bibliography" {
-					if cslPath, ok := findNamedStr(args.Children, "style"); ok {
+					if leaf, cslPath, ok := findNamedStr(args.Children, "style"); ok {
 						localResourcePath := getRelLocalPath(relTypDir, cslPath)
 						if exist(projectRoot, localResourcePath) {
+							rebase(leaf, cslPath)
 							localResourcePaths = append(localResourcePaths, localResourcePath)
 						}
 					}
@@ -350,14 +363,16 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				if args.Kind != syntax.SyntaxKindArgs {
 					continue
 				}
-				if path, ok := findFirstStr(args.Children); ok {
+				if leaf, path, ok := findFirstStr(args.Children); ok {
+					rebase(leaf, path)
 					localResourcePath := getRelLocalPath(relTypDir, path)
 					localResourcePaths = append(localResourcePaths, localResourcePath)
 				}
 				if foundFunc == "bibliography" {
-					if cslPath, ok := findNamedStr(args.Children, "style"); ok {
+					if leaf, cslPath, ok := findNamedStr(args.Children, "style"); ok {
 						localResourcePath := getRelLocalPath(relTypDir, cslPath)
 						if exist(projectRoot, localResourcePath) {
+							rebase(leaf, cslPath)
 							localResourcePaths = append(localResourcePaths, localResourcePath)
 						}
 					}
@@ -370,7 +385,7 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 
 	// Convert local Typst files.
 	for _, localTypPath := range localTypPaths {
-		localSpecs, err := rewrite(outRoot, projectRoot, localTypPath)
+		localSpecs, err := rewrite(outRoot, projectRoot, libDir, localTypPath)
 		if err != nil {
 			return nil, errors.WithStack(err)
 		}
@@ -425,8 +440,9 @@ func getRelLocalPath(relTypDir, path string) string {
 	return relLocalTypPath
 }
 
-// findNamedStr returns the string value of the named pair with the given key.
-func findNamedStr(nodes []*syntax.SyntaxNode, key string) (string, bool) {
+// findNamedStr returns the string literal and its value of the named pair with
+// the given key.
+func findNamedStr(nodes []*syntax.SyntaxNode, key string) (*syntax.LeafNode, string, bool) {
 	for _, node := range nodes {
 		inner, ok := node.Repr.(*syntax.InnerNode)
 		if !ok || inner.Kind != syntax.SyntaxKindNamed {
@@ -436,7 +452,7 @@ func findNamedStr(nodes []*syntax.SyntaxNode, key string) (string, bool) {
 			return findFirstStr(inner.Children)
 		}
 	}
-	return "", false
+	return nil, "", false
 }
 
 // findFirstIdent returns the name of the first identifier node.
@@ -452,17 +468,17 @@ func findFirstIdent(nodes []*syntax.SyntaxNode) (string, bool) {
 	return leaf.Text, true
 }
 
-// findFirstStr returns the unquoted version of the first string literal node.
-func findFirstStr(nodes []*syntax.SyntaxNode) (string, bool) {
+// findFirstStr returns the first string literal node and its value.
+func findFirstStr(nodes []*syntax.SyntaxNode) (*syntax.LeafNode, string, bool) {
 	node, ok := findFirst(nodes, syntax.SyntaxKindStr)
 	if !ok {
-		return "", false
+		return nil, "", false
 	}
 	leaf, ok := node.Repr.(*syntax.LeafNode)
 	if !ok {
-		return "", false
+		return nil, "", false
 	}
-	return syntax.UnquoteStr(leaf.Text), true
+	return leaf, syntax.UnquoteStr(leaf.Text), true
 }
 
 // findFirst returns the first node of the given kind.
@@ -518,7 +534,7 @@ func copyPackage(outRoot *os.Root, spec *syntax.PackageSpec) ([]*syntax.PackageS
 		return nil, errors.WithStack(err)
 	}
 	pkgInfo := manifest.Pkg
-	libSpecs, err := rewrite(outLibRoot, pkgRoot, pkgInfo.Entrypoint)
+	libSpecs, err := rewrite(outLibRoot, pkgRoot, "/"+libTypDir, pkgInfo.Entrypoint)
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-- 
2.43.0


From 1e27c09b3d35c3f0546515bc8825372d7377764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:34 +0000
Subject: [PATCH 31/49] fix: an unclosed element may end with the newline
 before a line in incremental reparse

---
 typst/syntax/reparser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 83c2c74..de5b546 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -243,6 +243,11 @@ func next_at_start(node *SyntaxNode, at_start *bool) {
 		if kind == SyntaxKindParbreak || (kind == SyntaxKindSpace && any_(node.text(), isNewline)) {
 			*at_start = true
 		}
+	} else if inner, ok := node.Repr.(*InnerNode); ok {
+		// The trivia at the end of an unclosed element is within the element.
+		for _, child := range inner.Children {
+			next_at_start(child, at_start)
+		}
 	} else {
 		*at_start = false
 	}
-- 
2.43.0


From 20f0c39554f3dd274a3f82425b49bca418ac3142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 32/49] fix: do not separate a hash from its expression in
 incremental reparse

---
 typst/syntax/reparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index de5b546..b1727db 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -131,8 +131,8 @@ func try_reparse(
 			start--
 		}
 
-		// Expand to the right.
-		for end < uint(len(children)) && expand(children[end]) {
+		// Expand to the right. Do not separate a hash from its expression.
+		for end < uint(len(children)) && (expand(children[end]) || children[end-1].kind() == SyntaxKindHash) {
 			end++
 		}
 
-- 
2.43.0


From 199d0bfa9636fb4b4b1d1e3fe456c3a4b77d41fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 33/49] fix: an error before an edit may be due to text the
 edit changes

---
 typst/syntax/reparser.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index b1727db..8d9433d 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -49,6 +49,10 @@ func try_reparse(
 	cursor := offset
 	node_kind := node.kind()
 
+	// The first child with an error. An error may be due to text far beyond it,
+	// as an unclosed string in code lasts until the next quote, wherever it is.
+	first_error := math.MaxInt
+
 	for i, child := range node.children() {
 		prev_range := ranges.NewRange(uint64(cursor), uint64(cursor+child.len()))
 		prev_len := child.len()
@@ -56,7 +60,7 @@ func try_reparse(
 
 		// Does the child surround the edit?
 		// If so, try to reparse within it or itself.
-		if !child.is_leaf() && includes(prev_range, replaced) {
+		if i < first_error && !child.is_leaf() && includes(prev_range, replaced) {
 			new_len := prev_len + replacement_len - uint(replaced.Len())
 			new_range := ranges.NewRange(uint64(cursor), uint64(cursor+new_len))
 
@@ -88,6 +92,10 @@ func try_reparse(
 			}
 		}
 
+		if child.erroneous() {
+			first_error = min(first_error, i)
+		}
+
 		// Does the child overlap with the edit?
 		if overlaps(prev_range, replaced) {
 			overlap.Start = min(overlap.Start, uint64(i))
@@ -123,7 +131,7 @@ func try_reparse(
 	expansion := uint(1)
 	for {
 		// Add slack in both directions.
-		start := saturating_sub(uint(overlap.Start), max(expansion, 2))
+		start := min(saturating_sub(uint(overlap.Start), max(expansion, 2)), uint(first_error))
 		end := min(uint(overlap.End)+expansion, uint(len(children)))
 
 		// Expand to the left.
-- 
2.43.0


From 5d5d264c288b6e0442981f3f41c4239c28f64bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 34/49] fix: take a line, column or byte index above the
 largest int for out of bounds

---
 typst/syntax/lines.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index e9e52d7..658fff9 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -73,7 +73,7 @@ func (l *Lines) ByteToUtf16(byteIdx uint) (uint, bool) {
 //
 // It returns false if the byte index is out of bounds.
 func (l *Lines) ByteToLine(byteIdx uint) (uint, bool) {
-	if int(byteIdx) > len(l.Text) {
+	if byteIdx > uint(len(l.Text)) {
 		return 0, false
 	}
 	i := sort.Search(len(l.Lines), func(i int) bool {
@@ -152,7 +152,7 @@ func (l *Lines) Utf16ToByte(utf16Idx uint) (uint, bool) {
 //
 // It returns false if the line index is out of bounds.
 func (l *Lines) LineToByte(lineIdx uint) (uint, bool) {
-	if int(lineIdx) >= len(l.Lines) {
+	if lineIdx >= uint(len(l.Lines)) {
 		return 0, false
 	}
 	return l.Lines[lineIdx].ByteIdx, true
@@ -184,7 +184,7 @@ func (l *Lines) LineColumnToByte(lineIdx uint, columnIdx uint) (uint, bool) {
 	}
 	line := l.Text[r.Start:r.End]
 	chars := []rune(line)
-	if int(columnIdx) > len(chars) {
+	if columnIdx > uint(len(chars)) {
 		return 0, false
 	}
 	head := string(chars[:columnIdx])
-- 
2.43.0


From c8d46468232c5675519e5d382216373a1e096bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 35/49] fix: offset of the nodes of LinkedChildren.RevChildren

The offset of a child visited from the back was the offset of its end.
---
 typst/syntax/node.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index 4606d97..9c416be 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -1201,13 +1201,12 @@ func (l *LinkedChildren) RevChildren() iter.Seq2[int, *LinkedNode] {
 	return func(yield func(int, *LinkedNode) bool) {
 		for index := len(l._children) - 1; index >= 0; index-- {
 			child := l._children[index]
-			offset := l.back
 			l.back -= child.len()
 			link := &LinkedNode{
 				node:   child,
 				parent: option.Some(l.parent.clone()),
 				index:  uint(index),
-				offset: offset,
+				offset: l.back,
 			}
 			if !yield(index, link) {
 				return
-- 
2.43.0


From df5fdb09d677f8a0dc0f54a492bab70bc669e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:56 +0000
Subject: [PATCH 36/49] fix: do not copy the tree to walk it through LinkedNode

Each step copied the parent with everything below it: finding a span in a
file of 800 paragraphs took 14 seconds.
---
 typst/syntax/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index 9c416be..d0b0d0b 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -941,7 +941,7 @@ func (link *LinkedNode) find(span Span) (*LinkedNode, bool) {
 
 func (link *LinkedNode) clone() *LinkedNode {
 	return &LinkedNode{
-		node:   link.node.clone(),
+		node:   link.node,
 		parent: link.parent.Clone(), // TODO: implement deep clone?
 		index:  link.index,
 		offset: link.offset,
-- 
2.43.0


From 099c1040a9a6843ad7c20149c297bb5097a97609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:45 +0000
Subject: [PATCH 37/49] fix: do not decode all text before the cursor to look
 one character back

Looking back, and finding the column of a line, copied the text from its
start: the time to parse a file grew with the square of its length (four
seconds for 15000 lines).
---
 internal/scanner/scanner.go | 52 ++++++++++++++-----------------------
 typst/syntax/lexer.go       |  7 ++---
 2 files changed, 24 insertions(+), 35 deletions(-)

diff --git a/internal/scanner/scanner.go b/internal/scanner/scanner.go
index 6fb8fb4..1f27cd0 100644
--- a/internal/scanner/scanner.go
+++ b/internal/scanner/scanner.go
@@ -144,10 +144,13 @@ func (s *Scanner) Scout(n int) (rune, bool) {
 		}
 	} else {
 		before := s.Before()
-		rs := []rune(before) // TODO: optimize when needed.
-		index := len(rs) + n
-		if index >= 0 && index < len(rs) {
-			return rs[index], true
+		for len(before) > 0 {
+			c, size := utf8.DecodeLastRuneInString(before)
+			n++
+			if n == 0 {
+				return c, true
+			}
+			before = before[:len(before)-size]
 		}
 	}
 	return 0, false
@@ -162,36 +165,22 @@ func (s *Scanner) Locate(n int) uint {
 		return s.Cursor()
 	}
 	if n > 0 {
-		chars := []rune(s.After()) // TODO: optimize?
-		i := 0
+		after := s.After()
 		length := 0
-		for _, c := range chars {
-			if !utf8.ValidRune(c) {
-				break
-			}
-			length += utf8.RuneLen(c)
-			i++
-			if i == n {
-				break
-			}
+		for n > 0 && length < len(after) {
+			_, size := utf8.DecodeRuneInString(after[length:])
+			length += size
+			n--
 		}
 		return s.Cursor() + uint(length)
 	} else {
-		chars := []rune(s.Before()) // TODO: optimize?
-		i := 0
-		n = -n
-		length := 0
-		for _, c := range slices.Backward(chars) {
-			if !utf8.ValidRune(c) {
-				break
-			}
-			length += utf8.RuneLen(c)
-			i++
-			if i == n {
-				break
-			}
+		before := s.Before()
+		for n < 0 && len(before) > 0 {
+			_, size := utf8.DecodeLastRuneInString(before)
+			before = before[:len(before)-size]
+			n++
 		}
-		return uint(int64(s.Cursor()) - int64(length))
+		return uint(len(before))
 	}
 }
 
@@ -209,11 +198,10 @@ func (s *Scanner) Eat() (rune, bool) {
 // back.
 func (s *Scanner) Uneat() (rune, bool) {
 	before := s.Before()
-	rs := []rune(before) // TODO: optimize when needed.
-	if len(rs) == 0 {
+	if len(before) == 0 {
 		return 0, false
 	}
-	c := rs[len(rs)-1]
+	c, _ := utf8.DecodeLastRuneInString(before)
 	s.cursor -= uint(utf8.RuneLen(c))
 	return c, true
 }
diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index a0191b0..aa5564a 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -76,12 +76,13 @@ func (lexer *Lexer) column(index uint) uint {
 	s := lexer.s.Clone() // Make a new temporary scanner (cheap).
 	s.Jump(index)
 	before := s.Before()
-	rs := []rune(before) // TODO: optimize when needed.
 	n := uint(0)
-	for i := len(rs) - 1; i >= 0; i-- {
-		if isNewline(rs[i]) {
+	for len(before) > 0 {
+		r, size := utf8.DecodeLastRuneInString(before)
+		if isNewline(r) {
 			break
 		}
+		before = before[:len(before)-size]
 		n++
 	}
 	return n
-- 
2.43.0


From 66e61765ca53e4b98f510c0ad73d98b218d4135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 38/49] fix: give the kind of identifiers and field accesses in
 math

---
 typst/syntax/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index aa5564a..7e23350 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -135,7 +135,7 @@ func (lexer *Lexer) next() (SyntaxKind, *SyntaxNode) {
 			case SyntaxModeMath:
 				k, n := lexer.math(start, c)
 				if node, ok := n.Get(); ok {
-					return kind, node
+					return k, node
 				} else {
 					kind = k
 				}
-- 
2.43.0


From 54e8838a023cb6ee17870e09d78930cec52aeb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 39/49] fix: a math class is that of a single character, not of
 the first of several

---
 typst/syntax/parser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/typst/syntax/parser.go b/typst/syntax/parser.go
index 1f15eb5..c7609bc 100644
--- a/typst/syntax/parser.go
+++ b/typst/syntax/parser.go
@@ -2,6 +2,7 @@ package syntax
 
 import (
 	"fmt"
+	"unicode/utf8"
 
 	"github.com/mewmew/typast/internal/option"
 	"github.com/mewmew/typast/internal/ranges"
@@ -527,10 +528,11 @@ func math_class(text string) option.Option[stdx.MathClass] {
 		return option.Some(stdx.MathClass_Fence)
 	}
 
-	for _, c := range text {
-		return typutil.DefaultMathClass(c)
+	c, size := utf8.DecodeRuneInString(text)
+	if size == 0 || size < len(text) {
+		return option.None[stdx.MathClass]()
 	}
-	return option.None[stdx.MathClass]()
+	return typutil.DefaultMathClass(c)
 }
 
 // Parse an argument list in math: `(a, b; c, d; size: #50%)`.
-- 
2.43.0


From ae106e4c6e46d9a0e6f6b6e2933e5e67c57388d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 40/49] fix: do not copy and scan the rest of the text for each
 character in math

---
 typst/syntax/lexer.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 7e23350..1f5818c 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -1414,13 +1414,17 @@ func is_xid_continue(r rune) bool {
 	return xid.Continue(r)
 }
 
-// graphemes
+// GraphemeLen returns the length in bytes of the first grapheme cluster of str,
+// looking no further into str than needed to find its end.
 func GraphemeLen(str string) (int, bool) {
-	s := graphemes.NewSegmenter([]byte(str))
-	for s.Next() {
-		return len(s.Bytes()), true
+	for n := 32; n < len(str); n *= 2 {
+		length, _, _ := graphemes.SplitFunc([]byte(str[:n]), false)
+		if length > 0 {
+			return length, true
+		}
 	}
-	return 0, false
+	length, _, _ := graphemes.SplitFunc([]byte(str), true)
+	return length, length > 0
 }
 
 func valid_float(str string) bool {
-- 
2.43.0


From 13390e9ade1e05ee5752c369ce43d72a2336f494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 41/49] fix: empty math was not in parentheses

---
 typst/syntax/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index dc8a053..d5ddce5 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -897,6 +897,9 @@ func (node *Math) exprs() []Expr {
 // Whether this `Math` node was originally parenthesized.
 func (node *Math) was_deparenthesized() bool {
 	children := node.children()
+	if len(children) == 0 {
+		return false
+	}
 	first := children[0]
 	last := children[len(children)-1]
 	return first.kind() == SyntaxKindLeftParen && last.kind() == SyntaxKindRightParen
-- 
2.43.0


From f9ce9ff91fb0a4c7cc72df2df395da58fa38c3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 42/49] fix: find attachments in math after trivia

---
 typst/syntax/ast.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index d5ddce5..4902f76 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1065,7 +1065,9 @@ func (node *MathAttach) bottom() option.Option[Expr] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr := SyntaxNode_cast[Expr](child); expr.IsPresent() {
+				return expr
+			}
 		}
 		if child.kind() == SyntaxKindUnderscore {
 			found = true
@@ -1079,7 +1081,9 @@ func (node *MathAttach) top() option.Option[Expr] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr := SyntaxNode_cast[Expr](child); expr.IsPresent() {
+				return expr
+			}
 		}
 		if child.kind() == SyntaxKindHat {
 			found = true
-- 
2.43.0


From cf5ea4b3610d781aac25f055e2cb1c873227115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 43/49] fix: reject byte positions inside of a character

ByteToUtf16, ByteToColumn and ByteToLineColumn counted the bytes of a cut
character as characters of their own, so that a position in the middle of a
character had a column beyond the end of the line.
---
 typst/syntax/lines.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 658fff9..8174b7c 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -58,12 +58,15 @@ func (l *Lines) LenLines() uint {
 
 // ByteToUtf16 returns the index of the UTF-16 code unit at the byte index.
 //
-// It returns false if the byte index is out of bounds.
+// It returns false if the byte index is out of bounds or inside of a character.
 func (l *Lines) ByteToUtf16(byteIdx uint) (uint, bool) {
 	lineIdx, ok := l.ByteToLine(byteIdx)
 	if !ok {
 		return 0, false
 	}
+	if !stdx.IsCharBoundary(l.Text, byteIdx) {
+		return 0, false
+	}
 	line := l.Lines[lineIdx]
 	head := l.Text[line.ByteIdx:byteIdx]
 	return line.Utf16Idx + lenUtf16(head), true
@@ -85,7 +88,8 @@ func (l *Lines) ByteToLine(byteIdx uint) (uint, bool) {
 // ByteToColumn returns the index of the column at the byte index.
 //
 // The column is defined as the number of characters in the line before the
-// byte index. It returns false if the byte index is out of bounds.
+// byte index. It returns false if the byte index is out of bounds or inside of
+// a character.
 func (l *Lines) ByteToColumn(byteIdx uint) (uint, bool) {
 	line, ok := l.ByteToLine(byteIdx)
 	if !ok {
@@ -95,6 +99,9 @@ func (l *Lines) ByteToColumn(byteIdx uint) (uint, bool) {
 	if !ok {
 		return 0, false
 	}
+	if !stdx.IsCharBoundary(l.Text, byteIdx) {
+		return 0, false
+	}
 	head := l.Text[start:byteIdx]
 	col := uint(utf8.RuneCountInString(head))
 	return col, true
@@ -102,7 +109,7 @@ func (l *Lines) ByteToColumn(byteIdx uint) (uint, bool) {
 
 // ByteToLineColumn returns the index of the line and column at the byte index.
 //
-// It returns false if the byte index is out of bounds.
+// It returns false if the byte index is out of bounds or inside of a character.
 func (l *Lines) ByteToLineColumn(byteIdx uint) (Position, bool) {
 	line, ok := l.ByteToLine(byteIdx)
 	if !ok {
-- 
2.43.0


From 929e933fa70364f512f788b88c33269cc272ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 44/49] fix: write rewritten paths as Typst string literals in
 offline-typ

---
 cmd/offline-typ/main.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index fe1ca41..089b330 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -11,7 +11,6 @@ import (
 	"path/filepath"
 	"runtime"
 	"slices"
-	"strconv"
 	"strings"
 
 	"github.com/mewmew/typast/typst/cstwalk"
@@ -211,7 +210,7 @@ func rewrite(outRoot, projectRoot *os.Root, libDir, relTypPath string) ([]*synta
 	// library it is used in, with the directory the library is copied to.
 	rebase := func(leaf *syntax.LeafNode, path string) {
 		if len(libDir) > 0 && filepath.IsAbs(path) {
-			leaf.Text = strconv.Quote(libDir + path)
+			leaf.Text = quoteStr(libDir + path)
 		}
 	}
 
@@ -264,7 +263,7 @@ func rewrite(outRoot, projectRoot *os.Root, libDir, relTypPath string) ([]*synta
 				if err != nil {
 					panic(fmt.Errorf("unable to get new package path for package %q; %+v", spec.String(), errors.WithStack(err)))
 				}
-				leaf.Text = strconv.Quote(newPkgPath)
+				leaf.Text = quoteStr(newPkgPath)
 				insertPkgRename(inner, i+1, spec.Name)
 				return true // done with inner node
 			case syntax.SyntaxKindModuleInclude:
@@ -468,6 +467,15 @@ func findFirstIdent(nodes []*syntax.SyntaxNode) (string, bool) {
 	return leaf.Text, true
 }
 
+// quoteStr returns the Typst string literal of the given text.
+//
+// NOTE: strconv.Quote may use escape sequences not supported by Typst, e.g.
+// `\u00ad` where Typst expects `\u{ad}`.
+func quoteStr(text string) string {
+	replacer := strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+	return `"` + replacer.Replace(text) + `"`
+}
+
 // findFirstStr returns the first string literal node and its value.
 func findFirstStr(nodes []*syntax.SyntaxNode) (*syntax.LeafNode, string, bool) {
 	node, ok := findFirst(nodes, syntax.SyntaxKindStr)
-- 
2.43.0


From fd51e84c91634828d65da74ca0021c1a63b0349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 45/49] fix: copy data files loaded by cbor, csv, json, toml,
 xml and yaml in offline-typ

---
 cmd/offline-typ/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 089b330..daf8d58 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -300,6 +300,8 @@ func rewrite(outRoot, projectRoot *os.Root, libDir, relTypPath string) ([]*synta
 			switch foundFunc {
 			case "bibliography":
 				// call to bibliography function handled below.
+			case "cbor", "csv", "json", "toml", "xml", "yaml":
+				// call to data loading function handled below.
 			case "image":
 				// call to image function handled below.
 			case "plugin":
-- 
2.43.0


From 8897dba1152b268f74f1b607baf91f437147ca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 46/49] fix: count all alphabetic characters as such, not only
 letters

---
 internal/stdx/stdx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/stdx/stdx.go b/internal/stdx/stdx.go
index 5566c14..26cb679 100644
--- a/internal/stdx/stdx.go
+++ b/internal/stdx/stdx.go
@@ -72,7 +72,7 @@ func IsAsciiHexdigit(c rune) bool {
 
 // is_alphabetic
 func IsAlphabetic(c rune) bool {
-	return unicode.IsLetter(c)
+	return unicode.In(c, unicode.Letter, unicode.Nl, unicode.Other_Alphabetic)
 }
 
 // is_numeric
-- 
2.43.0


From 038faf09210cafa6dffcad8a9022d03369dbe281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:19 +0000
Subject: [PATCH 47/49] fix: refuse Typst files which are not valid UTF-8

---
 cmd/offline-typ/main.go | 4 ++++
 cmd/parse-typ/main.go   | 4 ++++
 cmd/update-typ/main.go  | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index daf8d58..f0b35fd 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -12,6 +12,7 @@ import (
 	"runtime"
 	"slices"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/mewmew/typast/typst/cstwalk"
 	"github.com/mewmew/typast/typst/syntax"
@@ -625,6 +626,9 @@ func parse(root *os.Root, relTypPath string) (*syntax.SyntaxNode, error) {
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
+	if !utf8.Valid(buf) {
+		return nil, errors.Errorf("file %q is not valid UTF-8", relTypPath)
+	}
 	text := string(buf)
 	rootNode := syntax.Parse(text)
 	return rootNode, nil
diff --git a/cmd/parse-typ/main.go b/cmd/parse-typ/main.go
index 9c64d9e..f1e5cd1 100644
--- a/cmd/parse-typ/main.go
+++ b/cmd/parse-typ/main.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log"
 	"os"
+	"unicode/utf8"
 
 	"github.com/mewmew/typast/typst/syntax"
 	"github.com/pkg/errors"
@@ -31,6 +32,9 @@ func parse(typPath string) error {
 	if err != nil {
 		return errors.WithStack(err)
 	}
+	if !utf8.Valid(buf) {
+		return errors.Errorf("file %q is not valid UTF-8", typPath)
+	}
 	text := string(buf)
 	rootNode := syntax.Parse(text)
 	// print CST.
diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 2e0557b..c9b61f1 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -12,6 +12,7 @@ import (
 	"runtime"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/mewmew/typast/typst/cstwalk"
 	"github.com/mewmew/typast/typst/syntax"
@@ -371,6 +372,9 @@ func parse(root *os.Root, relTypPath string) (*syntax.SyntaxNode, error) {
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
+	if !utf8.Valid(buf) {
+		return nil, errors.Errorf("file %q is not valid UTF-8", relTypPath)
+	}
 	text := string(buf)
 	rootNode := syntax.Parse(text)
 	return rootNode, nil
-- 
2.43.0


From 672d02721ee0411b2b2ef881178aa465783b9899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:19 +0000
Subject: [PATCH 48/49] fix: name the character which is not valid in code, not
 its number

---
 typst/syntax/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 1f5818c..b30e389 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -983,7 +983,7 @@ func (lexer *Lexer) code(start uint, c rune) SyntaxKind {
 		return lexer.ident(start)
 
 	default:
-		return lexer.error(fmt.Sprintf("the character `%v` is not valid in code", c))
+		return lexer.error(fmt.Sprintf("the character `%c` is not valid in code", c))
 	}
 }
 
-- 
2.43.0


From 1d9136fd4f947743419a0f655100e5e556fbb6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:28 +0000
Subject: [PATCH 49/49] fix: restore the children of a node if their
 replacement cannot be numbered

---
 typst/syntax/node.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index d0b0d0b..16b90d1 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -361,7 +361,7 @@ func (node *SyntaxNode) descendants() uint {
 
 // Replaces a range of children with a replacement.
 //
-// May have mutated the children if it returns `Err(_)`.
+// The children are as before if it returns `Err(_)`.
 func (node *SyntaxNode) replace_children(_range ranges.Range, replacement []*SyntaxNode) error {
 	if inner, ok := node.Repr.(*InnerNode); ok {
 		return inner.replace_children(_range, replacement)
@@ -607,7 +607,7 @@ func (node *InnerNode) spanless_eq(other *InnerNode) bool {
 
 // Replaces a range of children with a replacement.
 //
-// May have mutated the children if it returns `Err(_)`.
+// The children are as before if it returns `Err(_)`.
 func (node *InnerNode) replace_children(_range ranges.Range, replacement []*SyntaxNode) error {
 	id, ok := node.Span.ID()
 	if !ok {
@@ -632,6 +632,12 @@ func (node *InnerNode) replace_children(_range ranges.Range, replacement []*Synt
 	replacement = replacement_vec[replacement_range.Start:replacement_range.End]
 	superseded := node.Children[_range.Start:_range.End]
 
+	// Remember what is replaced, to restore it if it cannot be numbered.
+	// Otherwise, the unnumbered nodes would be taken for up-to-date ones when
+	// the parent is compared with its replacement.
+	prev_children := slices.Clone(superseded)
+	prev_len, prev_descendants, prev_erroneous := node.Len, node.Descendants, node.Erroneous
+
 	// Compute the new byte length.
 	for _, r := range replacement {
 		node.Len += r.len()
@@ -723,6 +729,8 @@ func (node *InnerNode) replace_children(_range ranges.Range, replacement []*Synt
 
 		// If it didn't even work with all children, we give up.
 		if left == max_left && right == max_right {
+			node.Children = slices.Replace(node.Children, int(_range.Start), int(_range.End), prev_children...)
+			node.Len, node.Descendants, node.Erroneous = prev_len, prev_descendants, prev_erroneous
 			return ErrUnnumberable
 		}
 
-- 
2.43.0


From c4fa7c06297f1f6bc6e957e99d44204c4fdb30b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 01/30] fix: report lexer and parser errors from Parse

The error listener was checked before anything was parsed, and lexer
errors went to a listener that was thrown away, so Parse never returned
a syntax error: malformed paths were silently accepted, or crashed.
---
 parser.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/parser.go b/parser.go
index a95c699..97dd91d 100644
--- a/parser.go
+++ b/parser.go
@@ -62,15 +62,17 @@ func (lst *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymb
 // as string literals (i.e. quoted.)
 
 func Parse(input string) (Path, error) {
-	pr := getParser(input)
-	pr.RemoveErrorListeners()
-	errListener := errorListener{}
-	pr.AddErrorListener(&errListener)
-	if errListener.err != nil {
-		return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+	if input == "/" {
+		return Append(SelectRootPath), nil
 	}
+	errListener := errorListener{}
+	pr := getParser(input, &errListener)
 	if len(input) > 0 && input[0] == '/' {
-		p, err := astSimplePath(pr.SimplePath().(*parser.SimplePathContext).SimplePathExpr())
+		c := pr.SimplePath().(*parser.SimplePathContext)
+		if errListener.err != nil {
+			return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+		}
+		p, err := astSimplePath(c.SimplePathExpr())
 		if err != nil {
 			return p, err
 		}
@@ -78,18 +80,23 @@ func Parse(input string) (Path, error) {
 	}
 
 	c := pr.Path()
+	if errListener.err != nil {
+		return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+	}
 	// Build a matcher from AST
 	return astPath(c.Expression())
 }
 
-// GetParser returns a parser that will parse the input string
-func getParser(input string) *parser.JsonpathParser {
+// GetParser returns a parser that will parse the input string. Both
+// the lexer and the parser report syntax errors to errListener
+func getParser(input string, errListener antlr.ErrorListener) *parser.JsonpathParser {
 	lexer := parser.NewJsonpathLexer(antlr.NewInputStream(input))
 	lexer.RemoveErrorListeners()
-	errListener := errorListener{}
-	lexer.AddErrorListener(&errListener)
+	lexer.AddErrorListener(errListener)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := parser.NewJsonpathParser(stream)
+	p.RemoveErrorListeners()
+	p.AddErrorListener(errListener)
 	p.BuildParseTrees = true
 	return p
 }
-- 
2.43.0


From cf011bbd8209e1bcb73886d8a116bdb5bcf068c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 02/30] fix: MapModel.Key reports missing keys

It returned ok=true for keys that are not in the object, so paths that
address a missing key returned a nil node.
---
 docmodel.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/docmodel.go b/docmodel.go
index 8776056..7155418 100644
--- a/docmodel.go
+++ b/docmodel.go
@@ -62,7 +62,8 @@ func (MapModel) Key(in any, key string) (any, bool) {
 	if !ok {
 		return nil, false
 	}
-	return obj[key], true
+	value, ok := obj[key]
+	return value, ok
 }
 
 func (MapModel) Keys(in any) []string {
-- 
2.43.0


From 721843c9cabf71a30098cdcc7ac959b82ddf26d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 03/30] fix: recursive descent visits value nodes once

Value nodes were evaluated both as children of their parents, and when
descending into them, so they were captured twice. A scalar root was
treated as its own descendant.
---
 path.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/path.go b/path.go
index 9033815..ef15cb9 100644
--- a/path.go
+++ b/path.go
@@ -183,9 +183,8 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 		node := ctx.path.Last().Node
 		switch ctx.doc.Type(node) {
 		case ValueNode:
-			if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {
-				return err
-			}
+			// A value node has no descendants, and it is already
+			// evaluated as the child of its parent
 		case ObjectNode:
 			for _, key := range ctx.doc.Keys(node) {
 				value, _ := ctx.doc.Key(node, key)
-- 
2.43.0


From 9743e03b2e7fd7c3c4404395204238dfbd0cb66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:13 +0000
Subject: [PATCH 04/30] fix: x.. and x..[a:b] evaluate without crashing

The recursive flags of a path ending with .. were one shorter than its
selectors, so evaluating it crashed, and a member index following ..
overwrote the flag.
---
 parser.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 97dd91d..4ee6929 100644
--- a/parser.go
+++ b/parser.go
@@ -138,7 +138,7 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 			return
 		}
 		path.selectors = append(path.selectors, wildcardSelector{})
-		path.recursive = append(path.recursive[:len(path.recursive)-1], true)
+		path.recursive = append(path.recursive[:len(path.recursive)-1], true, false)
 		return
 
 	case *parser.RecursiveDescentExpressionContext:
@@ -158,7 +158,14 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 
 	case *parser.MemberIndexExpressionContext:
 		var left, right Path
-		if left, err = astPath(expr.Expression()); err != nil {
+		leftExpr := expr.Expression()
+		// x..[a:b] is parsed as the member index of x.., but it selects
+		// from x and all its descendants
+		term, descend := leftExpr.(*parser.RecursiveDescentTermExpressionContext)
+		if descend {
+			leftExpr = term.Expression()
+		}
+		if left, err = astPath(leftExpr); err != nil {
 			return
 		}
 		indexExprs := expr.AllIndexExpression()
@@ -167,7 +174,7 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 		}
 		// Combine paths
 		path.selectors = append(left.selectors, right.selectors...)
-		path.recursive = append(left.recursive[:len(left.recursive)-1], false)
+		path.recursive = append(left.recursive[:len(left.recursive)-1], descend)
 		path.recursive = append(path.recursive, right.recursive...)
 		return
 
-- 
2.43.0


From 8b19435fbca5f7c5e7386acae9345ea38a36cda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:34 +0000
Subject: [PATCH 05/30] fix: a path that selects nothing, or null, is false in
 a filter

[?(@.key)] selected every node, because an empty list of nodes and a
node whose value is null were both taken as true.
---
 expression.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index b874fcd..f502d89 100644
--- a/expression.go
+++ b/expression.go
@@ -99,7 +99,11 @@ func (c exprValue) asBool() bool {
 	if s, ok := value.(string); ok {
 		return len(s) != 0
 	}
-	return c.value != nil
+	// A path that selects nothing evaluates to an empty list of nodes
+	if nodes, ok := c.value.([]any); ok {
+		return len(nodes) != 0
+	}
+	return value != nil
 }
 
 func (c exprValue) getValue() any {
-- 
2.43.0


From 31441f3c363364c17e8f7bd764e9e287e8750d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:35 +0000
Subject: [PATCH 06/30] fix: $ in an expression is the root of the document

It only matched when the node being filtered was the root, so filters
such as [?(@.key==$.value)] never selected anything, and comparing the
current node with the root crashed on objects and arrays.
---
 expression.go |  5 +++++
 path.go       | 12 +++++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/expression.go b/expression.go
index f502d89..7b103cd 100644
--- a/expression.go
+++ b/expression.go
@@ -253,6 +253,11 @@ type pathExpression struct {
 
 func (expr pathExpression) evaluate(ctx *context) (exprValue, error) {
 	result := make([]any, 0)
+	if _, ok := expr.path.selectors[0].(rootElementSelector); ok {
+		// An absolute path starts from the root of the document, not
+		// from the current node
+		ctx = newContext(ctx.doc)
+	}
 	err := evaluateAt(ctx, expr.path, 0, func(item DocPath) {
 		result = append(result, item.Last().Node)
 	})
diff --git a/path.go b/path.go
index ef15cb9..354205d 100644
--- a/path.go
+++ b/path.go
@@ -98,6 +98,11 @@ func Search(doc DocModel, path Path, capture func(DocPath)) error {
 	if len(path.selectors) == 0 {
 		return nil
 	}
+	return evaluateAt(newContext(doc), path, 0, capture)
+}
+
+// newContext returns an evaluation context positioned at the root of the document
+func newContext(doc DocModel) *context {
 	ctx := &context{
 		doc: doc,
 		path: DocPath{
@@ -109,7 +114,7 @@ func Search(doc DocModel, path Path, capture func(DocPath)) error {
 	}
 	el.Type = doc.Type(el.Node)
 	ctx.path.P = append(ctx.path.P, el)
-	return evaluateAt(ctx, path, 0, capture)
+	return ctx
 }
 
 func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) error {
@@ -220,10 +225,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 type rootElementSelector struct{}
 
 func (rootElementSelector) match(ctx *context) bool {
-	if ctx.path.Len() == 1 {
-		return true
-	}
-	return ctx.path.Last().Node == ctx.doc.Root()
+	return ctx.path.Len() == 1
 }
 
 func (rootElementSelector) selectChildNodes(*context) (children iterator, canSelect bool) {
-- 
2.43.0


From e64bc100d13de897f0dff71ac13cb398ca905d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 07/30] fix: unary minus negates the value of its operand

It looked for a number in the expression value wrapper instead of the
value in it, so the negation of anything but a literal was null.
---
 expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index 7b103cd..9783b53 100644
--- a/expression.go
+++ b/expression.go
@@ -123,7 +123,7 @@ func (u unaryMinusExpression) evaluate(ctx *context) (exprValue, error) {
 	if err != nil {
 		return exprValue{}, err
 	}
-	num := valueAsNumber(c)
+	num := valueAsNumber(c.value)
 	if num == nil {
 		return exprValue{}, nil
 	}
-- 
2.43.0


From 1097db0e9922bf544483f8b05e530774837033ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 08/30] fix: an integer is not equal to a fractional number

1==1.5 was true because the right side was truncated, while 1.5==1 was
false.
---
 expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index 9783b53..c18910f 100644
--- a/expression.go
+++ b/expression.go
@@ -182,7 +182,7 @@ func (expr equalityExpression) evaluate(ctx *context) (exprValue, error) {
 			return exprValue{value: i == j}, nil
 		}
 		if f, ok := rightValue.(float64); ok {
-			return exprValue{value: i == int(f)}, nil
+			return exprValue{value: float64(i) == f}, nil
 		}
 		return exprValue{value: false}, nil
 	}
-- 
2.43.0


From 1f15e911579a95d6e5d2216d75379271b4992a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:51 +0000
Subject: [PATCH 09/30] fix: do not truncate the right side when comparing an
 integer

1 < 1.5 was false, and 1 >= 1.5 was true.
---
 expression.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index c18910f..10560bf 100644
--- a/expression.go
+++ b/expression.go
@@ -341,7 +341,17 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 	}
 
 	if i, ok := lvalue.(int); ok {
-		j, ok := valueAsInt(rvalue)
+		n := valueAsNumber(rvalue)
+		if f, ok := n.(float64); ok {
+			if float64(i) < f {
+				return -1, true, nil
+			}
+			if float64(i) > f {
+				return 1, true, nil
+			}
+			return 0, true, nil
+		}
+		j, ok := n.(int)
 		if !ok {
 			return 0, false, nil
 		}
-- 
2.43.0


From b7fef6bcde9218d6d0371c807dde3fce5de3fcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 10/30] fix: in tests membership

The value wrapper of the left operand was compared with the bare values
on the right, so in was always false. A path on the right that selects
an array node now tests the elements of that array.
---
 expression.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/expression.go b/expression.go
index 10560bf..43ce8ae 100644
--- a/expression.go
+++ b/expression.go
@@ -174,37 +174,40 @@ func (expr equalityExpression) evaluate(ctx *context) (exprValue, error) {
 	if err != nil {
 		return exprValue{}, err
 	}
-	leftValue := left.getValue()
-	rightValue := right.getValue()
+	return exprValue{value: equalValues(left.getValue(), right.getValue())}, nil
+}
 
+// equalValues compares two values, converting between integer and
+// floating point numbers
+func equalValues(leftValue, rightValue any) bool {
 	if i, ok := leftValue.(int); ok {
 		if j, ok := rightValue.(int); ok {
-			return exprValue{value: i == j}, nil
+			return i == j
 		}
 		if f, ok := rightValue.(float64); ok {
-			return exprValue{value: float64(i) == f}, nil
+			return float64(i) == f
 		}
-		return exprValue{value: false}, nil
+		return false
 	}
 	if i, ok := leftValue.(float64); ok {
 		if j, ok := rightValue.(float64); ok {
-			return exprValue{value: i == j}, nil
+			return i == j
 		}
 		if j, ok := rightValue.(int); ok {
-			return exprValue{value: i == float64(j)}, nil
+			return i == float64(j)
 		}
 	}
 	if l, ok := leftValue.(string); ok {
 		if r, ok := rightValue.(string); ok {
-			return exprValue{value: l == r}, nil
+			return l == r
 		}
 	}
 	if b, ok := leftValue.(bool); ok {
 		if r, ok := rightValue.(bool); ok {
-			return exprValue{value: b == r}, nil
+			return b == r
 		}
 	}
-	return exprValue{value: false}, nil
+	return false
 }
 
 type equality3Expression struct {
@@ -658,13 +661,15 @@ func (expr inExpression) evaluate(ctx *context) (exprValue, error) {
 	if err != nil {
 		return exprValue{}, err
 	}
-	if r.value == nil {
+	rvalue := r.getValue()
+	if rvalue == nil {
 		return exprValue{}, err
 	}
-	arr, ok := r.value.([]any)
+	arr, ok := rvalue.([]any)
 	if !ok {
-		arr = []any{r.value}
+		arr = []any{rvalue}
 	}
+	lvalue := l.getValue()
 	for _, x := range arr {
 		var v any
 		if n, ok := x.(nodeValue); ok {
@@ -672,7 +677,7 @@ func (expr inExpression) evaluate(ctx *context) (exprValue, error) {
 		} else {
 			v = x
 		}
-		if l == v {
+		if equalValues(lvalue, v) {
 			return exprValue{value: true}, nil
 		}
 	}
-- 
2.43.0


From eac2f58b9716648af337b27964df5b77530a2d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 11/30] fix: null is equal to null

[?(@.key==null)] selected nothing, and [?(@.key!=null)] selected nodes
whose key is null.
---
 expression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expression.go b/expression.go
index 43ce8ae..26464c0 100644
--- a/expression.go
+++ b/expression.go
@@ -180,6 +180,9 @@ func (expr equalityExpression) evaluate(ctx *context) (exprValue, error) {
 // equalValues compares two values, converting between integer and
 // floating point numbers
 func equalValues(leftValue, rightValue any) bool {
+	if leftValue == nil && rightValue == nil {
+		return true
+	}
 	if i, ok := leftValue.(int); ok {
 		if j, ok := rightValue.(int); ok {
 			return i == j
@@ -226,6 +229,9 @@ func (expr equality3Expression) evaluate(ctx *context) (exprValue, error) {
 	}
 	leftValue := left.getValue()
 	rightValue := right.getValue()
+	if leftValue == nil && rightValue == nil {
+		return exprValue{value: true}, nil
+	}
 	if i, ok := leftValue.(int); ok {
 		if j, ok := rightValue.(int); ok {
 			return exprValue{value: i == j}, nil
-- 
2.43.0


From 898b280b5fa899e33ee990c407f6abf15521fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 12/30] fix: a negative index before the start of an array
 selects nothing

It was clamped to 0, which is right for slice bounds only. The index
selector also dropped the normalized value when matching.
---
 path.go  |  4 ++--
 slice.go | 29 ++++++++++++++++++-----------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/path.go b/path.go
index 354205d..5fe23c5 100644
--- a/path.go
+++ b/path.go
@@ -316,7 +316,7 @@ func (sel *keySelector) match(ctx *context) bool {
 		if v := sel.intValue(ctx); v != nil {
 			if *v < 0 {
 				n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
-				*v = normalizeIndex(*v, n)
+				*v = elementIndex(*v, n)
 				if *v < 0 {
 					return false
 				}
@@ -344,7 +344,7 @@ func (sel *keySelector) selectChildNodes(ctx *context) (iterator, bool) {
 	if isArray(ctx.path) {
 		if v := sel.intValue(ctx); v != nil {
 			n := ctx.doc.Len(ctx.path.Last().Node)
-			index := normalizeIndex(*v, n)
+			index := elementIndex(*v, n)
 			if index < 0 {
 				return emptyIterator{}, true
 			}
diff --git a/slice.go b/slice.go
index f9d2d23..d20367a 100644
--- a/slice.go
+++ b/slice.go
@@ -35,6 +35,19 @@ func normalizeIndex(index any, len int) int {
 	return 0
 }
 
+// elementIndex returns the index of an array element, where negative
+// indexes count from the end of the array. Returns -1 if the array does
+// not have that element.
+func elementIndex(index, len int) int {
+	if index < 0 {
+		index += len
+	}
+	if index < 0 || index >= len {
+		return -1
+	}
+	return index
+}
+
 func (sel *indexSelector) match(ctx *context) bool {
 	if !isArrayElement(ctx.path) {
 		return false
@@ -47,14 +60,8 @@ func (sel *indexSelector) match(ctx *context) bool {
 	if !ok {
 		return false
 	}
-	if index < 0 {
-		n := ctx.doc.Len(ctx.path.Last().Node)
-		index := normalizeIndex(index, n)
-		if index < 0 {
-			return false
-		}
-	}
-	return ctx.path.Last().Index == index
+	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
+	return ctx.path.Last().Index == elementIndex(index, n)
 }
 
 func (sel *indexSelector) selectChildNodes(ctx *context) (children iterator, canSelect bool) {
@@ -66,11 +73,11 @@ func (sel *indexSelector) selectChildNodes(ctx *context) (children iterator, can
 	if err != nil {
 		return nil, false
 	}
-	index := normalizeIndex(ivalue.value, n)
-	if index < 0 {
+	index, ok := valueAsInt(ivalue.value)
+	if !ok {
 		return emptyIterator{}, true
 	}
-	if index >= n {
+	if index = elementIndex(index, n); index < 0 {
 		return emptyIterator{}, true
 	}
 	node := ctx.doc.Elem(ctx.path.Last().Node, index)
-- 
2.43.0


From 84f36dbb0d89c3034e3dcb31f15b9a42ad54777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:55 +0000
Subject: [PATCH 13/30] fix: [start:end:] does not drop start

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 4ee6929..ee79a83 100644
--- a/parser.go
+++ b/parser.go
@@ -351,7 +351,7 @@ func astSlice(ctx *parser.SliceContext) (selector, error) {
 	}
 	if expressions[2] == nil {
 		return &rangeSelector{
-			start: exprValue{value: 0},
+			start: expressions[0],
 			end:   expressions[1],
 		}, nil
 	}
-- 
2.43.0


From 5ccb47c6dfce1fc59afea012e4bb7ce40be70f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 14/30] fix: large slice steps do not overflow

[1:3:9223372036854775807] crashed with an index out of range.
---
 itr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/itr.go b/itr.go
index aecccef..8e907a0 100644
--- a/itr.go
+++ b/itr.go
@@ -51,6 +51,10 @@ func (s *rangeIterator) next() bool {
 		return true
 
 	case 1: // iterating
+		if s.step > 0 && s.step >= s.to-s.at { // at+step may overflow
+			s.state = 2
+			return false
+		}
 		s.at += s.step
 		if s.step > 0 {
 			if s.at >= s.to {
-- 
2.43.0


From e5d58da3fc5b5f33d96caec61893a874ac2f2434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:28 +0000
Subject: [PATCH 15/30] fix: slices with a negative step

The default bounds of a backwards slice were those of a forward one, so
[::-1] was empty, a start past the end of the array selected nothing,
the end could not go past the first element, and matching (used after
.. and in unions) never matched any element.
---
 slice.go | 132 +++++++++++++++++++++++--------------------------------
 1 file changed, 56 insertions(+), 76 deletions(-)

diff --git a/slice.go b/slice.go
index d20367a..6d8ee98 100644
--- a/slice.go
+++ b/slice.go
@@ -157,109 +157,89 @@ type sliceSelector struct {
 	step  expression
 }
 
-func (sel *sliceSelector) match(ctx *context) bool {
-	if !isArrayElement(ctx.path) {
-		return false
-	}
-	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
-	start, end := getRange(ctx, sel.start, sel.end, n)
-	if start < 0 {
-		return false
-	}
-	index := ctx.path.Last().Index
-	if index < start || index >= end {
-		return false
-	}
-	var step int
-	if start < end {
-		step = 1
-	} else {
-		step = -1
-	}
+// bounds returns the first index of the slice of an array of n elements,
+// the index at which the slice ends (exclusive), and the step. If step
+// is negative, the slice starts from the last element, and ends with
+// the first one, unless there are explicit bounds.
+func (sel *sliceSelector) bounds(ctx *context, n int) (from, to, step int, ok bool) {
+	step = 1
 	if sel.step != nil {
 		ivalue, err := sel.step.evaluate(ctx)
 		if err != nil {
-			return false
+			return
 		}
-		var ok bool
 		step, ok = valueAsInt(ivalue.value)
 		if !ok {
-			return false
+			return
 		}
 	}
 	if step == 0 {
-		return false
-	}
-	if start < end {
-		if step < 0 {
-			return false
-		}
-		return (index-start)%step == 0
+		return 0, 0, 0, false
 	}
 	if step > 0 {
-		return false
-	}
-	return (start-index)%(-step) == 0
-}
-
-func (sel *sliceSelector) selectChildNodes(ctx *context) (children iterator, canSelect bool) {
-	if !isArray(ctx.path) {
-		return emptyIterator{}, true
-	}
-	n := ctx.doc.Len(ctx.path.Last().Node)
-	start, end := getRange(ctx, sel.start, sel.end, n)
-	if start < 0 {
-		return emptyIterator{}, true
-	}
-	var step int
-	if start < end {
-		step = 1
-	} else {
-		step = -1
+		from, to = getRange(ctx, sel.start, sel.end, n)
+		if to > n {
+			to = n
+		}
+		return from, to, step, from >= 0
 	}
-	if sel.step != nil {
-		ivalue, err := sel.step.evaluate(ctx)
-		if err != nil {
-			return nil, false
+	bound := func(expr expression, def int) (int, bool) {
+		if expr == nil {
+			return def, true
 		}
-		var ok bool
-		step, ok = valueAsInt(ivalue.value)
+		ivalue, _ := expr.evaluate(ctx)
+		i, ok := valueAsInt(ivalue.value)
 		if !ok {
-			return nil, false
+			return 0, false
 		}
+		if i < 0 {
+			i += n
+		}
+		if i < 0 {
+			return -1, true
+		}
+		if i >= n {
+			return n - 1, true
+		}
+		return i, true
 	}
-	if step == 0 {
-		return emptyIterator{}, true
+	if from, ok = bound(sel.start, n-1); !ok {
+		return
 	}
-	if start < end {
-		if step < 0 {
-			return emptyIterator{}, true
-		}
+	to, ok = bound(sel.end, -1)
+	return
+}
 
-		if end > n {
-			end = n
-		}
-		return &rangeIterator{
-			doc:   ctx.doc,
-			node:  ctx.path.Last().Node,
-			from:  start,
-			to:    end,
-			step:  step,
-			state: 0,
-		}, true
+func (sel *sliceSelector) match(ctx *context) bool {
+	if !isArrayElement(ctx.path) {
+		return false
 	}
+	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
+	from, to, step, ok := sel.bounds(ctx, n)
+	if !ok {
+		return false
+	}
+	index := ctx.path.Last().Index
 	if step > 0 {
+		return index >= from && index < to && (index-from)%step == 0
+	}
+	return index <= from && index > to && (from-index)%(-step) == 0
+}
+
+func (sel *sliceSelector) selectChildNodes(ctx *context) (children iterator, canSelect bool) {
+	if !isArray(ctx.path) {
 		return emptyIterator{}, true
 	}
-	if start >= n {
+	n := ctx.doc.Len(ctx.path.Last().Node)
+	from, to, step, ok := sel.bounds(ctx, n)
+	if !ok {
 		return emptyIterator{}, true
 	}
-
 	return &rangeIterator{
 		doc:   ctx.doc,
 		node:  ctx.path.Last().Node,
-		from:  start,
-		to:    end,
+		from:  from,
+		to:    to,
 		step:  step,
 		state: 0,
 	}, true
-- 
2.43.0


From 5f9db71bab32bf01978af25481686a12ac0b54b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 16/30] fix: IndexSelectorPath does not select the empty key of
 an object

---
 path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 5fe23c5..4784cfa 100644
--- a/path.go
+++ b/path.go
@@ -64,7 +64,7 @@ func KeySelectorPath(key string) Path {
 // Returns a path that selects an index
 func IndexSelectorPath(index int) Path {
 	return Path{
-		selectors: []selector{&keySelector{expr: exprValue{value: index}}},
+		selectors: []selector{&indexSelector{index: exprValue{value: index}}},
 		recursive: []bool{false},
 	}
 }
-- 
2.43.0


From 3f594a5ed9ed76d11d71858fd72c97e3babd907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 17/30] fix: captured paths stay valid, and paths do not share
 storage

Search overwrote the paths it had given to capture as it continued, so
keeping the path of a match was not possible. Two paths derived from
the same DocPath overwrote each other as well.
---
 docpath.go | 11 ++++++++---
 path.go    | 20 ++++++++++++++------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/docpath.go b/docpath.go
index f00616a..c24cf02 100644
--- a/docpath.go
+++ b/docpath.go
@@ -17,7 +17,7 @@ type Segment struct {
 
 // Add a key-value to the path. The value is of type valueType. Returns the new path
 func (path DocPath) Key(key string, value any, valueType NodeType) DocPath {
-	path.P = append(path.P, Segment{
+	path.P = append(path.P[:len(path.P):len(path.P)], Segment{
 		Node: value,
 		Name: key,
 		Type: valueType,
@@ -27,7 +27,7 @@ func (path DocPath) Key(key string, value any, valueType NodeType) DocPath {
 
 // Add an array index-value to the path. The value is of type valueType. Returns the new path
 func (path DocPath) Index(index int, value any, valueType NodeType) DocPath {
-	path.P = append(path.P, Segment{
+	path.P = append(path.P[:len(path.P):len(path.P)], Segment{
 		Node:  value,
 		Index: index,
 		Type:  valueType,
@@ -36,10 +36,15 @@ func (path DocPath) Index(index int, value any, valueType NodeType) DocPath {
 }
 
 func (path DocPath) Push(seg Segment) DocPath {
-	path.P = append(path.P, seg)
+	path.P = append(path.P[:len(path.P):len(path.P)], seg)
 	return path
 }
 
+// clone returns a copy of the path that does not share storage with it
+func (path DocPath) clone() DocPath {
+	return DocPath{P: append([]Segment(nil), path.P...)}
+}
+
 // Returns a new path by removing the last element from the path
 func (path DocPath) Pop() DocPath {
 	path.P = path.P[:len(path.P)-1]
diff --git a/path.go b/path.go
index 4784cfa..e697474 100644
--- a/path.go
+++ b/path.go
@@ -77,7 +77,7 @@ type selector interface {
 // Finds all document elements addressed by the path
 func Find(doc DocModel, path Path) ([]any, error) {
 	results := make([]any, 0)
-	err := Search(doc, path, func(docpath DocPath) {
+	err := search(doc, path, func(docpath DocPath) {
 		results = append(results, docpath.Last().Node)
 	})
 	return results, err
@@ -94,7 +94,15 @@ func ParseAndFind(doc DocModel, path string) ([]any, error) {
 
 // Search iterates all document nodes depth-first, and calls `capture`
 // for those document nodes that `path` matches.
+// `capture` may keep the paths it is given.
 func Search(doc DocModel, path Path, capture func(DocPath)) error {
+	return search(doc, path, func(docpath DocPath) {
+		capture(docpath.clone())
+	})
+}
+
+// search calls capture with a path that is valid only during the call
+func search(doc DocModel, path Path, capture func(DocPath)) error {
 	if len(path.selectors) == 0 {
 		return nil
 	}
@@ -144,7 +152,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 			for childNodeElements.next() {
 				var childNode Segment
 				childNodeElements.item(&childNode)
-				ctx.path = ctx.path.Push(childNode)
+				ctx.path.P = append(ctx.path.P, childNode)
 				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {
 					return err
 				}
@@ -160,7 +168,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 		case ObjectNode:
 			for _, key := range ctx.doc.Keys(node) {
 				value, _ := ctx.doc.Key(node, key)
-				ctx.path = ctx.path.Key(key, value, ctx.doc.Type(value))
+				ctx.path.P = append(ctx.path.P, Segment{Node: value, Name: key, Type: ctx.doc.Type(value)})
 				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {
 					return err
 				}
@@ -171,7 +179,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 			for i := 0; i < n; i++ {
 				value := ctx.doc.Elem(node, i)
 				index := i
-				ctx.path = ctx.path.Index(index, value, ctx.doc.Type(value))
+				ctx.path.P = append(ctx.path.P, Segment{Node: value, Index: index, Type: ctx.doc.Type(value)})
 				if err := evaluateAt(ctx, path, pathIx, capture); err != nil {
 					return err
 				}
@@ -193,7 +201,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 		case ObjectNode:
 			for _, key := range ctx.doc.Keys(node) {
 				value, _ := ctx.doc.Key(node, key)
-				ctx.path = ctx.path.Key(key, value, ctx.doc.Type(value))
+				ctx.path.P = append(ctx.path.P, Segment{Node: value, Name: key, Type: ctx.doc.Type(value)})
 				if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {
 					return err
 				}
@@ -207,7 +215,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 			for i := 0; i < n; i++ {
 				value := ctx.doc.Elem(node, i)
 				index := i
-				ctx.path = ctx.path.Index(index, value, ctx.doc.Type(value))
+				ctx.path.P = append(ctx.path.P, Segment{Node: value, Index: index, Type: ctx.doc.Type(value)})
 				if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {
 					return err
 				}
-- 
2.43.0


From 5e51e5bd899d2369568a622674124391ad69ab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 18/30] fix: ask the document model for the values of value
 nodes only

DocModel.Value is defined for value nodes, but expressions called it for
objects and arrays as well. Models other than MapModel could crash, and
length and in did not work with their arrays.
---
 expression.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/expression.go b/expression.go
index 26464c0..28f6b72 100644
--- a/expression.go
+++ b/expression.go
@@ -31,6 +31,25 @@ type nodeValue struct {
 	doc  DocModel
 }
 
+// getValue returns the value of a value node, and the element nodes of
+// an array node. An object node has no other value than itself.
+func (n nodeValue) getValue() any {
+	switch n.doc.Type(n.node) {
+	case ValueNode:
+		return n.doc.Value(n.node)
+	case ArrayNode:
+		arr := make([]any, n.doc.Len(n.node))
+		for i := range arr {
+			arr[i] = nodeValue{
+				node: n.doc.Elem(n.node, i),
+				doc:  n.doc,
+			}
+		}
+		return arr
+	}
+	return n
+}
+
 func (c exprValue) evaluate(*context) (exprValue, error) { return c, nil }
 
 // Return an int, float, bool, or string as int or float64. If not convertable, returns nil
@@ -58,7 +77,7 @@ func valueAsNumber(value any) any {
 			return f
 		}
 	}
-	if n, ok := value.(nodeValue); ok {
+	if n, ok := value.(nodeValue); ok && n.doc.Type(n.node) == ValueNode {
 		return valueAsNumber(n.doc.Value(n.node))
 	}
 	return nil
@@ -109,7 +128,7 @@ func (c exprValue) asBool() bool {
 func (c exprValue) getValue() any {
 	n, ok := c.value.(nodeValue)
 	if ok {
-		return n.doc.Value(n.node)
+		return n.getValue()
 	}
 	return c.value
 }
@@ -396,6 +415,10 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 	if i, ok := lvalue.(string); ok {
 		j, ok := rvalue.(string)
 		if !ok {
+			switch rvalue.(type) {
+			case nodeValue, []any:
+				return 0, false, nil
+			}
 			j = fmt.Sprint(rvalue)
 		}
 		if i < j {
@@ -679,7 +702,7 @@ func (expr inExpression) evaluate(ctx *context) (exprValue, error) {
 	for _, x := range arr {
 		var v any
 		if n, ok := x.(nodeValue); ok {
-			v = n.doc.Value(n.node)
+			v = n.getValue()
 		} else {
 			v = x
 		}
-- 
2.43.0


From 646c1e55e8e5e8839ef5cea2d4d6486fbf86d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:57 +0000
Subject: [PATCH 19/30] fix: escape sequences in string literals

\\\\ , \\t, and \\0 were dropped, as was an escaped character that has
no special meaning, \\u{...} kept its digits and decoded to 0, and
\\x80 and above decoded to \\x7f.
---
 expression.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/expression.go b/expression.go
index 28f6b72..55a8848 100644
--- a/expression.go
+++ b/expression.go
@@ -1173,6 +1173,9 @@ func numericLiteral(ctx *parser.NumericLiteralContext) any {
 var singleEscapeRunes = map[rune]rune{
 	'\'': '\'',
 	'"':  '"',
+	'\\': '\\',
+	'0':  0,
+	't':  '\t',
 	'b':  '\b',
 	'f':  '\f',
 	'n':  '\n',
@@ -1180,6 +1183,10 @@ var singleEscapeRunes = map[rune]rune{
 	'v':  '\v',
 }
 
+func isLineTerminator(r rune) bool {
+	return r == '\n' || r == '\r' || r == '\u2028' || r == '\u2029'
+}
+
 func unescapeString(in string) string {
 	out := make([]rune, 0, len(in))
 	esc := false
@@ -1193,21 +1200,19 @@ func unescapeString(in string) string {
 				if len(buf) == 2 {
 					hex = false
 					esc = false
-					v, _ := strconv.ParseInt(string(buf), 16, 8)
+					v, _ := strconv.ParseInt(string(buf), 16, 32)
 					out = append(out, rune(v))
 					buf = nil
 				}
 			} else if uni {
 				buf = append(buf, r)
-				if len(buf) > 1 && buf[0] == '{' {
+				if buf[0] == '{' {
 					if r == '}' {
-						v, _ := strconv.ParseInt(string(buf[1:]), 16, 32)
+						v, _ := strconv.ParseInt(string(buf[1:len(buf)-1]), 16, 32)
 						out = append(out, rune(v))
 						buf = nil
 						uni = false
 						esc = false
-					} else {
-						out = append(out, r)
 					}
 				} else if len(buf) == 4 {
 					v, _ := strconv.ParseInt(string(buf), 16, 32)
@@ -1225,11 +1230,16 @@ func unescapeString(in string) string {
 			} else {
 				if x, ok := singleEscapeRunes[r]; ok {
 					out = append(out, x)
+				} else if !isLineTerminator(r) {
+					// Not an escape sequence, the backslash is dropped
+					out = append(out, r)
 				}
 				esc = false
 			}
 		} else if r == '\\' {
 			esc = true
+		} else if r == '\n' || r == '\r' {
+			// Only a line continuation can have these
 		} else {
 			out = append(out, r)
 		}
-- 
2.43.0


From dfe3f136524e905d858b65a3533ff940c1fc07e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:59 +0000
Subject: [PATCH 20/30] fix: surrogate pairs in string literals

A JSON string that escapes a character above U+FFFF as two \\u sequences
was decoded to two replacement characters.
---
 expression.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index 55a8848..78950ae 100644
--- a/expression.go
+++ b/expression.go
@@ -5,6 +5,8 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf16"
 
 	"github.com/antlr4-go/antlr/v4"
 
@@ -1216,7 +1218,12 @@ func unescapeString(in string) string {
 					}
 				} else if len(buf) == 4 {
 					v, _ := strconv.ParseInt(string(buf), 16, 32)
-					out = append(out, rune(v))
+					if n := len(out); n > 0 && utf16.DecodeRune(out[n-1], rune(v)) != unicode.ReplacementChar {
+						// The second half of a surrogate pair
+						out[n-1] = utf16.DecodeRune(out[n-1], rune(v))
+					} else {
+						out = append(out, rune(v))
+					}
 					buf = nil
 					uni = false
 					esc = false
-- 
2.43.0


From 8565b930502a47e5b5f50ae2fd327ccff5cec23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:29 +0000
Subject: [PATCH 21/30] fix: numeric literals with digit separators, E, or out
 of range

The grammar allows 1_000, 0xF_F, and 1E3, but these were 0. Integers
that do not fit into 64 bits were silently replaced by the largest
integer.
---
 expression.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/expression.go b/expression.go
index 78950ae..9fe6f5b 100644
--- a/expression.go
+++ b/expression.go
@@ -94,7 +94,17 @@ func valueAsInt(value any) (int, bool) {
 	if i, ok := v.(int); ok {
 		return i, true
 	}
-	return int(v.(float64)), true
+	f := v.(float64)
+	if math.IsNaN(f) {
+		return 0, false
+	}
+	if f >= math.MaxInt {
+		return math.MaxInt, true
+	}
+	if f <= math.MinInt {
+		return math.MinInt, true
+	}
+	return int(f), true
 }
 
 func (c exprValue) String() string {
@@ -1149,22 +1159,27 @@ func astLiteral(ctx *parser.LiteralContext) exprValue {
 
 func numericLiteral(ctx *parser.NumericLiteralContext) any {
 	if lit := ctx.DecimalLiteral(); lit != nil {
-		number := lit.GetText()
-		if strings.IndexRune(number, 'e') != -1 || strings.IndexRune(number, '.') != -1 {
+		number := strings.ReplaceAll(lit.GetText(), "_", "")
+		if strings.ContainsAny(number, "eE.") {
 			v, _ := strconv.ParseFloat(number, 64)
 			return float64(v)
 		}
-		v, _ := strconv.ParseInt(number, 10, 64)
+		v, err := strconv.ParseInt(number, 10, 64)
+		if err != nil {
+			// Does not fit into an integer
+			f, _ := strconv.ParseFloat(number, 64)
+			return f
+		}
 		return int(v)
 	}
 
 	if lit := ctx.HexIntegerLiteral(); lit != nil {
-		v, _ := strconv.ParseInt(lit.GetText()[2:], 16, 64)
+		v, _ := strconv.ParseInt(strings.ReplaceAll(lit.GetText()[2:], "_", ""), 16, 64)
 		return int(v)
 	}
 
 	if lit := ctx.OctalIntegerLiteral2(); lit != nil {
-		v, _ := strconv.ParseInt(lit.GetText()[2:], 8, 64)
+		v, _ := strconv.ParseInt(strings.ReplaceAll(lit.GetText()[2:], "_", ""), 8, 64)
 		return int(v)
 	}
 	lit := ctx.BinaryIntegerLiteral().GetText()[2:]
-- 
2.43.0


From 50bb603f73e40248eed3a07410c6dceec639eca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 22/30] fix: literals in simple paths address the key as
 written

/null addressed the key <nil>, and /1.0 addressed 1.
---
 simplepath.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simplepath.go b/simplepath.go
index 312a806..1e2add7 100644
--- a/simplepath.go
+++ b/simplepath.go
@@ -18,9 +18,11 @@ func astSimplePath(ctx parser.ISimplePathExprContext) (path Path, err error) {
 			path.recursive = []bool{false}
 			return
 		}
+		// The key is the literal as written, e.g. null, 1.0
 		path.selectors = []selector{
 			&keySelector{
-				key: v.String(),
+				key:  lit.GetText(),
+				expr: v,
 			},
 		}
 		path.recursive = []bool{false}
-- 
2.43.0


From aa11ffaf49af91c155938f7dc4c9391b5a99a1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:10 +0000
Subject: [PATCH 23/30] fix: MakeKeyString quotes and escapes all keys that
 need it

Keys with characters that are operators or selectors of the grammar,
reserved words, letters unknown to the lexer, and the empty key were not
quoted, and backslashes and line breaks in quoted keys were not escaped,
so paths built with Join addressed other nodes.
---
 escape.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/escape.go b/escape.go
index 7574379..b8e92fc 100644
--- a/escape.go
+++ b/escape.go
@@ -5,20 +5,36 @@ import (
 	"unicode"
 )
 
-const acceptableChars = "_*$.,@!~#%^"
+const acceptableChars = "_"
+
+// Tokens of the grammar that look like identifiers
+var reservedKeys = map[string]struct{}{
+	"null":  {},
+	"true":  {},
+	"false": {},
+	"in":    {},
+}
+
+// Backslash starts an escape sequence, and string literals cannot have
+// line breaks
+var unquotableReplacer = strings.NewReplacer("\\", `\\`, "\n", `\n`, "\r", `\r`)
 
 // MakeKeyString quotes or escapes the input string if necessary to be
 // used in a path expression
 func MakeKeyString(input string) string {
 	// If input has all digits, letters, and _, no need for escape or
-	// quote
-	bad := false
+	// quote, unless it is a reserved word. The letters recognized by
+	// the lexer depend on its Unicode tables, so quote all but ASCII.
+	_, bad := reservedKeys[input]
+	if len(input) == 0 {
+		bad = true
+	}
 	for i, r := range input {
 		if i == 0 && unicode.IsDigit(r) {
 			bad = true
 			break
 		}
-		if !unicode.IsDigit(r) && !unicode.IsLetter(r) && strings.IndexRune(acceptableChars, r) == -1 {
+		if r > unicode.MaxASCII || !unicode.IsDigit(r) && !unicode.IsLetter(r) && strings.IndexRune(acceptableChars, r) == -1 {
 			bad = true
 			break
 		}
@@ -27,6 +43,7 @@ func MakeKeyString(input string) string {
 		return input
 	}
 
+	input = unquotableReplacer.Replace(input)
 	// Does it have double-quote?
 	if strings.IndexRune(input, '"') != -1 {
 		if strings.IndexRune(input, '\'') != -1 {
-- 
2.43.0


From c77a8a9a2e8b6ef35d1d6380f181acacd0ddee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 24/30] fix: RecursiveDescent of an empty path does not crash

---
 path.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/path.go b/path.go
index e697474..8ca7ffb 100644
--- a/path.go
+++ b/path.go
@@ -49,7 +49,9 @@ func RecursiveDescent(p Path) Path {
 		recursive: make([]bool, len(p.recursive)),
 	}
 	copy(ret.recursive, p.recursive)
-	ret.recursive[len(ret.recursive)-1] = true
+	if n := len(ret.recursive); n > 0 {
+		ret.recursive[n-1] = true
+	}
 	return ret
 }
 
-- 
2.43.0


From bf4d132d6e4a5fe37540d6c64f8d6a75b9056f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 25/30] fix: paths that continue after recursive descent in
 expressions

[?(@..a[0])] was an invalid expression, though $..a[0] is a valid path.
---
 expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expression.go b/expression.go
index 9fe6f5b..fe987ca 100644
--- a/expression.go
+++ b/expression.go
@@ -1137,6 +1137,14 @@ func astExpression(ctx parser.IExpressionContext, inPath bool) (expression, erro
 				if e := parse(c); e != nil {
 					return e, nil
 				}
+			case *parser.RecursiveDescentExpressionContext:
+				if e := parse(c); e != nil {
+					return e, nil
+				}
+			case *parser.RecursiveDescentTermExpressionContext:
+				if e := parse(c); e != nil {
+					return e, nil
+				}
 			}
 		}
 	}
-- 
2.43.0


From e9af48884d8bd62fffc17a2d0e0eb087fbc840fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:45 +0000
Subject: [PATCH 26/30] fix: hexadecimal, octal and binary literals that do not
 fit into an integer are floats

---
 expression.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/expression.go b/expression.go
index fe987ca..8a49366 100644
--- a/expression.go
+++ b/expression.go
@@ -3,6 +3,7 @@ package gojsonpath
 import (
 	"fmt"
 	"math"
+	"math/big"
 	"strconv"
 	"strings"
 	"unicode"
@@ -1182,16 +1183,26 @@ func numericLiteral(ctx *parser.NumericLiteralContext) any {
 	}
 
 	if lit := ctx.HexIntegerLiteral(); lit != nil {
-		v, _ := strconv.ParseInt(strings.ReplaceAll(lit.GetText()[2:], "_", ""), 16, 64)
-		return int(v)
+		return integerLiteral(lit.GetText()[2:], 16)
 	}
 
 	if lit := ctx.OctalIntegerLiteral2(); lit != nil {
-		v, _ := strconv.ParseInt(strings.ReplaceAll(lit.GetText()[2:], "_", ""), 8, 64)
-		return int(v)
+		return integerLiteral(lit.GetText()[2:], 8)
+	}
+	return integerLiteral(ctx.BinaryIntegerLiteral().GetText()[2:], 2)
+}
+
+// integerLiteral returns the value of the digits, which is a float if it
+// does not fit into an integer
+func integerLiteral(digits string, base int) any {
+	digits = strings.ReplaceAll(digits, "_", "")
+	v, err := strconv.ParseInt(digits, base, 64)
+	if err != nil {
+		if i, ok := new(big.Int).SetString(digits, base); ok {
+			f, _ := new(big.Float).SetInt(i).Float64()
+			return f
+		}
 	}
-	lit := ctx.BinaryIntegerLiteral().GetText()[2:]
-	v, _ := strconv.ParseInt(strings.Replace(lit, "_", "", -1), 2, 64)
 	return int(v)
 }
 
-- 
2.43.0


From 54afb63b2ba77d5dfb0048f50f8176830b57c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:05 +0000
Subject: [PATCH 27/30] fix: in with null on the right is false, not null

---
 expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index 8a49366..78c763a 100644
--- a/expression.go
+++ b/expression.go
@@ -705,7 +705,7 @@ func (expr inExpression) evaluate(ctx *context) (exprValue, error) {
 	}
 	rvalue := r.getValue()
 	if rvalue == nil {
-		return exprValue{}, err
+		return exprValue{value: false}, nil
 	}
 	arr, ok := rvalue.([]any)
 	if !ok {
-- 
2.43.0


From 6d40e619b6d7d5a1ae1019a091034b46a843f483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:55 +0000
Subject: [PATCH 28/30] fix: errors of filter expressions are returned, not
 taken for false

A filter that calls an unknown function selected nothing, and Find, Search
and ParseAndFind returned no error.
---
 expression.go | 1 +
 path.go       | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index 78c763a..8415e47 100644
--- a/expression.go
+++ b/expression.go
@@ -17,6 +17,7 @@ import (
 type context struct {
 	doc  DocModel
 	path DocPath
+	err  error // of a filter expression
 }
 
 type expression interface {
diff --git a/path.go b/path.go
index 8ca7ffb..7fadaef 100644
--- a/path.go
+++ b/path.go
@@ -133,7 +133,11 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 		capture(ctx.path)
 		return nil
 	}
-	if !path.selectors[pathIx].match(ctx) {
+	matched := path.selectors[pathIx].match(ctx)
+	if ctx.err != nil {
+		return ctx.err
+	}
+	if !matched {
 		return nil
 	}
 	// This document node satisfies the selector
@@ -381,6 +385,7 @@ type filterSelector struct {
 func (sel *filterSelector) match(ctx *context) bool {
 	v, err := sel.filter.evaluate(ctx)
 	if err != nil {
+		ctx.err = err
 		return false
 	}
 	return v.asBool()
-- 
2.43.0


From a42efa03e5e1a1c089d5cbcc4434880492301beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:35 +0000
Subject: [PATCH 29/30] fix: a missing value or a container was ordered with
 null

@.missing > null was true, although a path that selects nothing, or a
container, is not ordered with anything else.
---
 expression.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/expression.go b/expression.go
index 8415e47..25a6068 100644
--- a/expression.go
+++ b/expression.go
@@ -372,6 +372,13 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 	lvalue := l.getValue()
 	rvalue := r.getValue()
 
+	for _, v := range []any{lvalue, rvalue} {
+		switch v.(type) {
+		case nodeValue, []any:
+			// A missing value or a container is not ordered with anything
+			return 0, false, nil
+		}
+	}
 	if lvalue == nil && rvalue == nil {
 		return 0, true, nil
 	}
@@ -429,10 +436,6 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 	if i, ok := lvalue.(string); ok {
 		j, ok := rvalue.(string)
 		if !ok {
-			switch rvalue.(type) {
-			case nodeValue, []any:
-				return 0, false, nil
-			}
 			j = fmt.Sprint(rvalue)
 		}
 		if i < j {
-- 
2.43.0


From 3a00b3b9cc59d4df61a9a4582064aa61674bac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 30/30] fix: NaN is neither less than or equal to a number nor
 greater than or equal to one

---
 expression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression.go b/expression.go
index 25a6068..d687646 100644
--- a/expression.go
+++ b/expression.go
@@ -398,7 +398,7 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 			if float64(i) > f {
 				return 1, true, nil
 			}
-			return 0, true, nil
+			return 0, !math.IsNaN(f), nil
 		}
 		j, ok := n.(int)
 		if !ok {
@@ -430,7 +430,7 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 		if i > j {
 			return 1, true, nil
 		}
-		return 0, true, nil
+		return 0, i == j, nil
 	}
 
 	if i, ok := lvalue.(string); ok {
-- 
2.43.0


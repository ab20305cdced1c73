From fbac8f8a14bcd150395d7b7b83e882a284a3ec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 01/20] fix: do not modify a shared delimited attribute when
 merging it into an element

---
 element.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/element.go b/element.go
index 3393d73..fef8f0e 100644
--- a/element.go
+++ b/element.go
@@ -88,7 +88,15 @@ func (e *voidElement) addAttributes(attrs []Node) Node {
 			existing := e.attributes[idx]
 			if delimited, ok := existing.(*delimitedAttribute); ok {
 				if addD, ok := att.(*delimitedAttribute); ok {
-					delimited.values = append(delimited.values, addD.values...)
+					// the existing attribute may be shared with other elements - so merge into a copy
+					values := make([]Value, 0, len(delimited.values)+len(addD.values))
+					values = append(values, delimited.values...)
+					values = append(values, addD.values...)
+					e.attributes[idx] = &delimitedAttribute{
+						name:      delimited.name,
+						delimiter: delimited.delimiter,
+						values:    values,
+					}
 					continue
 				}
 			}
@@ -154,7 +162,15 @@ func (e *element) addAttributes(attrs []Node) Node {
 			existing := e.attributes[idx]
 			if delimited, ok := existing.(*delimitedAttribute); ok {
 				if addD, ok := att.(*delimitedAttribute); ok {
-					delimited.values = append(delimited.values, addD.values...)
+					// the existing attribute may be shared with other elements - so merge into a copy
+					values := make([]Value, 0, len(delimited.values)+len(addD.values))
+					values = append(values, delimited.values...)
+					values = append(values, addD.values...)
+					e.attributes[idx] = &delimitedAttribute{
+						name:      delimited.name,
+						delimiter: delimited.delimiter,
+						values:    values,
+					}
 					continue
 				}
 			}
-- 
2.43.0


From 33549199068d0dab5ae6ea46c0c795c2906d319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 02/20] fix: conditions of sibling nested conditionals no
 longer overwrite each other

---
 element.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/element.go b/element.go
index fef8f0e..9c2d0f8 100644
--- a/element.go
+++ b/element.go
@@ -267,7 +267,9 @@ func attributesAndContents(conditions []ConditionalFunc, content []Node) (attrs
 					attrs = append(attrs, addA...)
 					condAttrs = append(condAttrs, addCa...)
 				case *conditional:
-					newConditions := append(conditions, cn.fn)
+					// always copy - sibling conditionals must not share (and overwrite) the same backing array
+					newConditions := make([]ConditionalFunc, 0, len(conditions)+1)
+					newConditions = append(append(newConditions, conditions...), cn.fn)
 					for _, a := range cn.attributes {
 						condAttrs = append(condAttrs, conditionalAttribute{
 							attribute:  a,
-- 
2.43.0


From bb18f2a511143da32d001d22b5372cc533be4488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 03/20] fix: attributes inside a conditional apply in the order
 they were declared

---
 conditional.go | 3 +++
 element.go     | 8 +-------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/conditional.go b/conditional.go
index 580f1bb..e5a978c 100644
--- a/conditional.go
+++ b/conditional.go
@@ -10,6 +10,7 @@ type ConditionalFunc func(ctx *context.Context) bool
 type conditional struct {
 	nodes      []Node
 	attributes []Node
+	declared   []Node // all nodes and attributes - in the order they were declared
 	fn         ConditionalFunc
 }
 
@@ -69,9 +70,11 @@ func Conditional(fn ConditionalFunc, nodes ...Node) Node {
 	result := &conditional{
 		nodes:      make([]Node, 0, len(nodes)),
 		attributes: make([]Node, 0, len(nodes)),
+		declared:   make([]Node, 0, len(nodes)),
 		fn:         fn,
 	}
 	for _, n := range nodes {
+		result.declared = append(result.declared, n)
 		if n.Type() == AttributeNode {
 			result.attributes = append(result.attributes, n)
 		} else {
diff --git a/element.go b/element.go
index 9c2d0f8..f061134 100644
--- a/element.go
+++ b/element.go
@@ -270,13 +270,7 @@ func attributesAndContents(conditions []ConditionalFunc, content []Node) (attrs
 					// always copy - sibling conditionals must not share (and overwrite) the same backing array
 					newConditions := make([]ConditionalFunc, 0, len(conditions)+1)
 					newConditions = append(append(newConditions, conditions...), cn.fn)
-					for _, a := range cn.attributes {
-						condAttrs = append(condAttrs, conditionalAttribute{
-							attribute:  a,
-							conditions: newConditions,
-						})
-					}
-					_, addCa, _ := attributesAndContents(newConditions, cn.nodes)
+					_, addCa, _ := attributesAndContents(newConditions, cn.declared)
 					condAttrs = append(condAttrs, addCa...)
 				}
 			}
-- 
2.43.0


From 6a045208e98f88e1b09c255d2722019e9642b7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:12 +0000
Subject: [PATCH 04/20] fix: conditional attributes are rendered in declaration
 order instead of random order

---
 conditional.go | 10 ++++++++--
 element.go     | 12 ++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/conditional.go b/conditional.go
index e5a978c..293d4f9 100644
--- a/conditional.go
+++ b/conditional.go
@@ -30,15 +30,21 @@ func (a conditionalAttribute) evaluate(ctx *context.Context) bool {
 
 type conditionalAttributes []conditionalAttribute
 
-func (c conditionalAttributes) evaluate(ctx *context.Context) map[string][]Node {
+// evaluate returns the attributes (by name) whose conditions are met - and the names of those
+// attributes in the order they were declared
+func (c conditionalAttributes) evaluate(ctx *context.Context) (map[string][]Node, []string) {
 	result := make(map[string][]Node, len(c))
+	names := make([]string, 0, len(c))
 	for _, a := range c {
 		if a.evaluate(ctx) {
 			name := a.attribute.Name()
+			if _, ok := result[name]; !ok {
+				names = append(names, name)
+			}
 			result[name] = append(result[name], a.attribute)
 		}
 	}
-	return result
+	return result, names
 }
 
 func (c *conditional) Render(ctx *context.Context) error {
diff --git a/element.go b/element.go
index f061134..349ee4a 100644
--- a/element.go
+++ b/element.go
@@ -6,11 +6,10 @@ import (
 
 func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[string]int, conditionals conditionalAttributes) {
 	if len(conditionals) > 0 {
-		if evaluated := conditionals.evaluate(ctx); len(evaluated) > 0 {
+		if evaluated, names := conditionals.evaluate(ctx); len(evaluated) > 0 {
 			use := &delimitedAttribute{}
-			for name, index := range attIndices {
-				attr := attributes[index]
-				if eAttr, ok := evaluated[name]; ok {
+			for _, attr := range attributes {
+				if eAttr, ok := evaluated[attr.Name()]; ok {
 					switch at := attr.(type) {
 					case *delimitedAttribute:
 						use.name = at.name
@@ -30,8 +29,9 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 					_ = attr.Render(ctx)
 				}
 			}
-			for name, ca := range evaluated {
-				if _, ok := attIndices[name]; !ok && len(ca) > 0 {
+			for _, name := range names {
+				if _, ok := attIndices[name]; !ok {
+					ca := evaluated[name]
 					first := ca[0]
 					switch at := first.(type) {
 					case *delimitedAttribute:
-- 
2.43.0


From df7f092a97d38cada85889ff289023b80bf7ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:39 +0000
Subject: [PATCH 05/20] fix: a value is not written (and does not clear the
 error) after an earlier write failed

---
 value.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/value.go b/value.go
index c499054..2657eb3 100644
--- a/value.go
+++ b/value.go
@@ -33,14 +33,18 @@ func NewConcatValue(values ...any) Value {
 }
 
 func (v Value) render(ctx *context.Context) (bool, error) {
+	if ctx.Error != nil {
+		return false, ctx.Error
+	}
 	var l int
 	if v.dynamicFunc != nil {
 		data := v.dynamicFunc(ctx)
-		l, ctx.Error = ctx.Writer.Write(data)
+		if ctx.Error == nil {
+			l, ctx.Error = ctx.Writer.Write(data)
+		}
 	} else if len(v.concats) > 0 {
-		var written bool
 		for _, concat := range v.concats {
-			if written, ctx.Error = concat.render(ctx); written {
+			if written, _ := concat.render(ctx); written {
 				l++
 			}
 		}
-- 
2.43.0


From 05f95b049cf2f9fdd65dbf84ff0dbcc68305831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:13 +0000
Subject: [PATCH 06/20] fix: an error from an imperative callback or a write is
 no longer lost by the nodes around it

---
 collection.go  | 14 +++++++++++---
 conditional.go |  5 ++++-
 element.go     |  7 ++++++-
 imperative.go  | 12 ++++++++----
 iterate.go     |  5 ++++-
 5 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/collection.go b/collection.go
index 69243c3..d4aaa7a 100644
--- a/collection.go
+++ b/collection.go
@@ -11,8 +11,11 @@ type collection struct {
 func (c *collection) Render(ctx *context.Context) error {
 	for _, n := range c.nodes {
 		if n.Type() != AttributeNode {
-			if ctx.Error = n.Render(ctx); ctx.Error != nil {
-				return ctx.Error
+			if err := n.Render(ctx); err != nil {
+				if ctx.Error == nil {
+					ctx.Error = err
+				}
+				break
 			}
 		}
 	}
@@ -47,7 +50,12 @@ type contentCollector struct {
 func (c *contentCollector) Render(ctx *context.Context) error {
 	for _, n := range c.collector(ctx) {
 		if n != nil && n.Type() != AttributeNode {
-			_ = n.Render(ctx)
+			if err := n.Render(ctx); err != nil {
+				if ctx.Error == nil {
+					ctx.Error = err
+				}
+				break
+			}
 		}
 	}
 	return ctx.Error
diff --git a/conditional.go b/conditional.go
index 293d4f9..4d002bf 100644
--- a/conditional.go
+++ b/conditional.go
@@ -50,7 +50,10 @@ func (c conditionalAttributes) evaluate(ctx *context.Context) (map[string][]Node
 func (c *conditional) Render(ctx *context.Context) error {
 	if c.fn(ctx) {
 		for _, n := range c.nodes {
-			if ctx.Error = n.Render(ctx); ctx.Error != nil {
+			if err := n.Render(ctx); err != nil {
+				if ctx.Error == nil {
+					ctx.Error = err
+				}
 				break
 			}
 		}
diff --git a/element.go b/element.go
index 349ee4a..d319f99 100644
--- a/element.go
+++ b/element.go
@@ -139,7 +139,12 @@ func (e *element) Render(ctx *context.Context) error {
 	renderAttributes(ctx, e.attributes, e.attIndices, e.conditionals)
 	ctx.Write(closeAngleBracket)
 	for _, c := range e.contents {
-		ctx.Error = c.Render(ctx)
+		if err := c.Render(ctx); err != nil {
+			if ctx.Error == nil {
+				ctx.Error = err
+			}
+			break
+		}
 	}
 	ctx.Write(closeTagStart)
 	ctx.Write(e.name)
diff --git a/imperative.go b/imperative.go
index 45fcf7c..924fbf6 100644
--- a/imperative.go
+++ b/imperative.go
@@ -35,11 +35,13 @@ type imperative struct {
 	fn func(ctx ImperativeContext) error
 }
 
-func (i *imperative) Render(ctx *context.Context) (err error) {
+func (i *imperative) Render(ctx *context.Context) error {
 	if i.fn != nil {
-		err = i.fn(&imperativeContext{ctx: ctx})
+		if err := i.fn(&imperativeContext{ctx: ctx}); err != nil && ctx.Error == nil {
+			ctx.Error = err
+		}
 	}
-	return
+	return ctx.Error
 }
 
 func (i *imperative) Type() NodeType {
@@ -70,7 +72,9 @@ func (ic *imperativeContext) WriteRaw(data []byte) {
 func (ic *imperativeContext) WriteNodes(nodes ...Node) {
 	for _, node := range nodes {
 		if node != nil && node.Type() != AttributeNode {
-			_ = node.Render(ic.ctx)
+			if err := node.Render(ic.ctx); err != nil && ic.ctx.Error == nil {
+				ic.ctx.Error = err
+			}
 		}
 	}
 }
diff --git a/iterate.go b/iterate.go
index 6a300d8..123ae42 100644
--- a/iterate.go
+++ b/iterate.go
@@ -98,7 +98,7 @@ func (i *iterator) Render(ctx *context.Context) error {
 			}
 		}
 	}
-	return nil
+	return ctx.Error
 }
 
 func (i *iterator) Type() NodeType {
@@ -152,6 +152,9 @@ func (i *yieldIterator) Render(ctx *context.Context) error {
 		Parent: ctx,
 	}
 	i.fn(ctx, func(item any) {
+		if ctx.Error != nil {
+			return
+		}
 		ictx.Cargo = item
 		if mi, ok := item.(map[string]any); ok {
 			ictx.Data = mi
-- 
2.43.0


From 663df61c04c45526744ca6fe4b3e6cbc2444f002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 07/20] fix: a yielded item that is not a map sees the outer
 data, not that of the previous item

---
 iterate.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iterate.go b/iterate.go
index 123ae42..c41e76b 100644
--- a/iterate.go
+++ b/iterate.go
@@ -158,6 +158,8 @@ func (i *yieldIterator) Render(ctx *context.Context) error {
 		ictx.Cargo = item
 		if mi, ok := item.(map[string]any); ok {
 			ictx.Data = mi
+		} else {
+			ictx.Data = ctx.Data
 		}
 		for _, n := range i.nodes {
 			if err := n.Render(ictx); err != nil {
-- 
2.43.0


From 7102472cff73a0dde9b486c857e75ccff7200832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 08/20] fix: escape the text of fmt.Stringer values like any
 other string

---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 2657eb3..77a9c2c 100644
--- a/value.go
+++ b/value.go
@@ -161,7 +161,7 @@ func valueToBytes(v any) []byte {
 	case float64:
 		return []byte(strconv.FormatFloat(vt, 'g', -1, 64))
 	case fmt.Stringer:
-		return []byte(vt.String())
+		return htmlEscapeString(vt.String())
 	case func() any:
 		return valueToBytes(vt())
 	}
-- 
2.43.0


From eb0350c833b39001777f65a3207f67519066ca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 09/20] fix: context.Get no longer panics on unexported fields,
 nil embedded pointers or named key types

---
 context/context.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/context/context.go b/context/context.go
index cdbec55..2f57539 100644
--- a/context/context.go
+++ b/context/context.go
@@ -60,15 +60,15 @@ func Get[T any](ctx *Context, key string) (T, bool) {
 		switch v.Kind() {
 		case reflect.Map:
 			if v.Type().Key().Kind() == reflect.String {
-				if val := v.MapIndex(reflect.ValueOf(key)); val.IsValid() {
+				if val := v.MapIndex(reflect.ValueOf(key).Convert(v.Type().Key())); val.IsValid() {
 					if typed, ok := val.Interface().(T); ok {
 						return typed, true
 					}
 				}
 			}
 		case reflect.Struct:
-			if f, ok := v.Type().FieldByName(key); ok {
-				if val := v.FieldByIndex(f.Index); val.IsValid() {
+			if f, ok := v.Type().FieldByName(key); ok && f.IsExported() {
+				if val, err := v.FieldByIndexErr(f.Index); err == nil && val.CanInterface() {
 					if typed, ok := val.Interface().(T); ok {
 						return typed, true
 					}
-- 
2.43.0


From de6e6ded0bb32be4dcea441972c0effe64a2c2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:16 +0000
Subject: [PATCH 10/20] fix: nil nodes given to conditionals and iterators are
 ignored instead of panicking

---
 conditional.go | 3 +++
 iterate.go     | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/conditional.go b/conditional.go
index 4d002bf..e4de836 100644
--- a/conditional.go
+++ b/conditional.go
@@ -83,6 +83,9 @@ func Conditional(fn ConditionalFunc, nodes ...Node) Node {
 		fn:         fn,
 	}
 	for _, n := range nodes {
+		if n == nil {
+			continue
+		}
 		result.declared = append(result.declared, n)
 		if n.Type() == AttributeNode {
 			result.attributes = append(result.attributes, n)
diff --git a/iterate.go b/iterate.go
index c41e76b..a8d94bc 100644
--- a/iterate.go
+++ b/iterate.go
@@ -23,7 +23,7 @@ func Iterate(fn func(ctx *context.Context) []any, nodes ...Node) Node {
 		fn:    fn,
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
@@ -59,7 +59,7 @@ func IterateKey(key string, nodes ...Node) Node {
 		},
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
@@ -128,7 +128,7 @@ func IterateYield(fn func(ctx *context.Context, yield func(any)), nodes ...Node)
 		nodes: make([]Node, 0, len(nodes)),
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
-- 
2.43.0


From d68b42547a9de1dbf3a6043d495cea1dc5ea00b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 11/20] fix: css unit helpers no longer write into the argument
 slice of the caller

---
 css/units.go | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/css/units.go b/css/units.go
index f7d4c47..4697d4f 100644
--- a/css/units.go
+++ b/css/units.go
@@ -22,75 +22,80 @@ var (
 
 // Px creates a value with "px" (pixels)
 func Px(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPx)...)
+	return withUnit(value, unitPx)
 }
 
 // Pt creates a value with "pt" (points)
 func Pt(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPt)...)
+	return withUnit(value, unitPt)
 }
 
 // Pc creates a value with "pc" (picas)
 func Pc(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPc)...)
+	return withUnit(value, unitPc)
 }
 
 // In creates a value with "in" (inches)
 func In(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitInch)...)
+	return withUnit(value, unitInch)
 }
 
 // Cm creates a value with "cm" (centimeters)
 func Cm(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitCm)...)
+	return withUnit(value, unitCm)
 }
 
 // Mm creates a value with "mm" (millimeters)
 func Mm(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitMm)...)
+	return withUnit(value, unitMm)
 }
 
 // Em creates a value with "em" (relative to parent font size)
 func Em(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitEm)...)
+	return withUnit(value, unitEm)
 }
 
 // Rem creates a value with "rem" (relative to root font size)
 func Rem(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitRem)...)
+	return withUnit(value, unitRem)
 }
 
 // Percent creates a value with "%" (unitPercent)
 func Percent(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPercent)...)
+	return withUnit(value, unitPercent)
 }
 
 // Vw creates a value with "vw" (viewport width)
 func Vw(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVw)...)
+	return withUnit(value, unitVw)
 }
 
 // Vh creates a value with "vh" (viewport height)
 func Vh(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVh)...)
+	return withUnit(value, unitVh)
 }
 
 // VMin creates a value with "vmin" (smaller of vw or vh)
 func VMin(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVmin)...)
+	return withUnit(value, unitVmin)
 }
 
 // VMax creates a value with "vmax" (larger of vw or vh)
 func VMax(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVmax)...)
+	return withUnit(value, unitVmax)
 }
 
 // Ch creates a value with "ch" (width of 0 glyph)
 func Ch(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitCh)...)
+	return withUnit(value, unitCh)
 }
 
 // Ex creates a value with "ex" (x-height of current font)
 func Ex(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitEx)...)
+	return withUnit(value, unitEx)
+}
+
+// withUnit concatenates the value and unit - without appending to (and so writing into) the slice of the caller
+func withUnit(value []any, unit []byte) aitch.Value {
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unit)...)
 }
-- 
2.43.0


From 5bb821b6a0ef26b37ca265d06b0f1ad6cf8382ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 12/20] fix: GenerateCode no longer forgets write errors

---
 html/generator.go | 58 +++++++++++++++++++++++++++++------------------
 svg/generator.go  | 54 +++++++++++++++++++++++++++----------------
 2 files changed, 70 insertions(+), 42 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index ea0701f..9e7c16f 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -14,6 +14,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	if w == nil {
 		w = os.Stdout
 	}
+	cw := &codeWriter{w: w}
 	elemMap, attrMap, boolAttrs := mappings()
 	tokenizer := html.NewTokenizer(r)
 	indent := []byte{}
@@ -35,9 +36,9 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		return result
 	}
 	write := func(s string) {
-		_, err = w.Write(indent)
-		_, err = w.Write([]byte(s))
-		_, err = w.Write(nl)
+		cw.write(indent)
+		cw.write([]byte(s))
+		cw.write(nl)
 	}
 	incIndent := func() {
 		indent = append(indent, tab)
@@ -60,47 +61,47 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		} else {
 			start = `aitch.Element("` + string(name) + `", `
 		}
-		_, err = w.Write(indent)
-		_, err = w.Write([]byte(start))
+		cw.write(indent)
+		cw.write([]byte(start))
 		if selfClosing && len(attrs) == 0 {
-			_, err = w.Write([]byte{')', ',', '\n'})
+			cw.write([]byte{')', ',', '\n'})
 			return
 		}
 		for i, a := range attrs {
 			if i > 0 {
-				_, err = w.Write([]byte{',', ' '})
+				cw.write([]byte{',', ' '})
 			}
 			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok {
 				if boolAttrs[strings.ToLower(a.Key)] {
-					_, err = w.Write([]byte(funcName(attr)))
-					_, err = w.Write([]byte{'(', ')'})
+					cw.write([]byte(funcName(attr)))
+					cw.write([]byte{'(', ')'})
 				} else {
-					_, err = w.Write([]byte(funcName(attr)))
-					_, err = w.Write([]byte{'(', '"'})
-					_, err = w.Write([]byte(escape(a.Val)))
-					_, err = w.Write([]byte{'"', ')'})
+					cw.write([]byte(funcName(attr)))
+					cw.write([]byte{'(', '"'})
+					cw.write([]byte(escape(a.Val)))
+					cw.write([]byte{'"', ')'})
 				}
 			} else {
-				_, err = w.Write([]byte(`aitch.Attribute("`))
-				_, err = w.Write([]byte(a.Key))
-				_, err = w.Write([]byte{'"', ' ', ',', '"'})
-				_, err = w.Write([]byte(escape(a.Val)))
-				_, err = w.Write([]byte{'"', ')'})
+				cw.write([]byte(`aitch.Attribute("`))
+				cw.write([]byte(a.Key))
+				cw.write([]byte{'"', ' ', ',', '"'})
+				cw.write([]byte(escape(a.Val)))
+				cw.write([]byte{'"', ')'})
 			}
 		}
 		if selfClosing {
-			_, err = w.Write([]byte{')', ','})
+			cw.write([]byte{')', ','})
 		} else if len(attrs) > 0 {
-			_, err = w.Write([]byte{','})
+			cw.write([]byte{','})
 		}
-		_, err = w.Write([]byte{'\n'})
+		cw.write([]byte{'\n'})
 		if !selfClosing {
 			incIndent()
 		}
 	}
 	write("var template = aitch.Collection(")
 	incIndent()
-	for err == nil && !eof {
+	for err == nil && cw.err == nil && !eof {
 		tokenType := tokenizer.Next()
 		switch tokenType {
 		case html.ErrorToken:
@@ -133,10 +134,23 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	if err == nil {
 		decIndent()
 		write(")\n")
+		err = cw.err
 	}
 	return err
 }
 
+// codeWriter writes until the first error - which it keeps
+type codeWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (cw *codeWriter) write(data []byte) {
+	if cw.err == nil {
+		_, cw.err = cw.w.Write(data)
+	}
+}
+
 func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[string]bool) {
 	elems = map[string]any{
 		"a":          A,
diff --git a/svg/generator.go b/svg/generator.go
index e5bfdfe..a4136ad 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -14,6 +14,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	if w == nil {
 		w = os.Stdout
 	}
+	cw := &codeWriter{w: w}
 	elemMap, attrMap := mappings()
 	tokenizer := html.NewTokenizer(r)
 	indent := []byte{}
@@ -35,9 +36,9 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		return result
 	}
 	write := func(s string) {
-		_, err = w.Write(indent)
-		_, err = w.Write([]byte(s))
-		_, err = w.Write(nl)
+		cw.write(indent)
+		cw.write([]byte(s))
+		cw.write(nl)
 	}
 	incIndent := func() {
 		indent = append(indent, tab)
@@ -60,42 +61,42 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		} else {
 			start = `aitch.Element("` + string(name) + `", `
 		}
-		_, err = w.Write(indent)
-		_, err = w.Write([]byte(start))
+		cw.write(indent)
+		cw.write([]byte(start))
 		if selfClosing && len(attrs) == 0 {
-			_, err = w.Write([]byte{')', ',', '\n'})
+			cw.write([]byte{')', ',', '\n'})
 			return
 		}
 		for i, a := range attrs {
 			if i > 0 {
-				_, err = w.Write([]byte{',', ' '})
+				cw.write([]byte{',', ' '})
 			}
 			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok {
-				_, err = w.Write([]byte(funcName(attr)))
-				_, err = w.Write([]byte{'(', '"'})
-				_, err = w.Write([]byte(escape(a.Val)))
-				_, err = w.Write([]byte{'"', ')'})
+				cw.write([]byte(funcName(attr)))
+				cw.write([]byte{'(', '"'})
+				cw.write([]byte(escape(a.Val)))
+				cw.write([]byte{'"', ')'})
 			} else {
-				_, err = w.Write([]byte(`aitch.Attribute("`))
-				_, err = w.Write([]byte(a.Key))
-				_, err = w.Write([]byte{'"', ' ', ',', '"'})
-				_, err = w.Write([]byte(escape(a.Val)))
-				_, err = w.Write([]byte{'"', ')'})
+				cw.write([]byte(`aitch.Attribute("`))
+				cw.write([]byte(a.Key))
+				cw.write([]byte{'"', ' ', ',', '"'})
+				cw.write([]byte(escape(a.Val)))
+				cw.write([]byte{'"', ')'})
 			}
 		}
 		if selfClosing {
-			_, err = w.Write([]byte{')', ','})
+			cw.write([]byte{')', ','})
 		} else if len(attrs) > 0 {
-			_, err = w.Write([]byte{','})
+			cw.write([]byte{','})
 		}
-		_, err = w.Write([]byte{'\n'})
+		cw.write([]byte{'\n'})
 		if !selfClosing {
 			incIndent()
 		}
 	}
 	write("var template = aitch.Collection(")
 	incIndent()
-	for err == nil && !eof {
+	for err == nil && cw.err == nil && !eof {
 		tokenType := tokenizer.Next()
 		switch tokenType {
 		case html.ErrorToken:
@@ -125,10 +126,23 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	if err == nil {
 		decIndent()
 		write(")\n")
+		err = cw.err
 	}
 	return err
 }
 
+// codeWriter writes until the first error - which it keeps
+type codeWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (cw *codeWriter) write(data []byte) {
+	if cw.err == nil {
+		_, cw.err = cw.w.Write(data)
+	}
+}
+
 func mappings() (elems map[string]any, attrs map[string]any) {
 	elems = map[string]any{
 		"altGlyph":            AltGlyph,
-- 
2.43.0


From f70d4e7c3bcec248bf34c7f9bb09d93c3caa1217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 13/20] fix: GenerateCode quotes names and text so that the
 code is always valid Go

---
 html/generator.go | 11 +++++------
 svg/generator.go  | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index 9e7c16f..6df9580 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"reflect"
 	"runtime"
+	"strconv"
 	"strings"
 )
 
@@ -49,17 +50,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 	}
 	escape := func(s string) string {
-		return strings.Replace(
-			strings.Replace(
-				strings.Replace(strings.Replace(s, "\\", `\\`, -1), "\t", `\t`, -1), "\n", `\n`, -1),
-			`"`, `\"`, -1)
+		quoted := strconv.Quote(s)
+		return quoted[1 : len(quoted)-1]
 	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = `aitch.Element("` + string(name) + `", `
+			start = `aitch.Element("` + escape(name) + `", `
 		}
 		cw.write(indent)
 		cw.write([]byte(start))
@@ -83,7 +82,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 				}
 			} else {
 				cw.write([]byte(`aitch.Attribute("`))
-				cw.write([]byte(a.Key))
+				cw.write([]byte(escape(a.Key)))
 				cw.write([]byte{'"', ' ', ',', '"'})
 				cw.write([]byte(escape(a.Val)))
 				cw.write([]byte{'"', ')'})
diff --git a/svg/generator.go b/svg/generator.go
index a4136ad..507955a 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"reflect"
 	"runtime"
+	"strconv"
 	"strings"
 )
 
@@ -49,17 +50,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 	}
 	escape := func(s string) string {
-		return strings.Replace(
-			strings.Replace(
-				strings.Replace(strings.Replace(s, "\\", `\\`, -1), "\t", `\t`, -1), "\n", `\n`, -1),
-			`"`, `\"`, -1)
+		quoted := strconv.Quote(s)
+		return quoted[1 : len(quoted)-1]
 	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = `aitch.Element("` + string(name) + `", `
+			start = `aitch.Element("` + escape(name) + `", `
 		}
 		cw.write(indent)
 		cw.write([]byte(start))
@@ -78,7 +77,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 				cw.write([]byte{'"', ')'})
 			} else {
 				cw.write([]byte(`aitch.Attribute("`))
-				cw.write([]byte(a.Key))
+				cw.write([]byte(escape(a.Key)))
 				cw.write([]byte{'"', ' ', ',', '"'})
 				cw.write([]byte(escape(a.Val)))
 				cw.write([]byte{'"', ')'})
-- 
2.43.0


From 0eed468444001395814ce80fef2a798f446279dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 14/20] fix: GenerateCode treats void elements without a slash
 as void

---
 html/generator.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index 6df9580..c192e58 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -115,13 +115,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			}
 		case html.StartTagToken:
 			token := tokenizer.Token()
-			writeElementStart(token.Data, token.Attr, false)
+			writeElementStart(token.Data, token.Attr, voidElements[token.Data])
 		case html.SelfClosingTagToken:
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
 		case html.EndTagToken:
-			decIndent()
-			write("),")
+			if token := tokenizer.Token(); !voidElements[token.Data] {
+				decIndent()
+				write("),")
+			}
 		case html.CommentToken:
 			token := tokenizer.Token()
 			write(`html.Comment("` + escape(token.Data) + `"),`)
@@ -150,6 +152,24 @@ func (cw *codeWriter) write(data []byte) {
 	}
 }
 
+// voidElements are the elements that have no end tag (and therefore no contents)
+var voidElements = map[string]bool{
+	"area":   true,
+	"base":   true,
+	"br":     true,
+	"col":    true,
+	"embed":  true,
+	"hr":     true,
+	"img":    true,
+	"input":  true,
+	"link":   true,
+	"meta":   true,
+	"param":  true,
+	"source": true,
+	"track":  true,
+	"wbr":    true,
+}
+
 func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[string]bool) {
 	elems = map[string]any{
 		"a":          A,
-- 
2.43.0


From a923169f8c8465efce80e8ffaad6adbd46f28086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 15/20] fix: GenerateCode keeps script, style and other raw
 text as raw bytes

---
 html/generator.go | 22 +++++++++++++++++++++-
 svg/generator.go  | 22 +++++++++++++++++++++-
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index c192e58..00a4d2e 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -100,8 +100,11 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	}
 	write("var template = aitch.Collection(")
 	incIndent()
+	lastStart := ""
 	for err == nil && cw.err == nil && !eof {
 		tokenType := tokenizer.Next()
+		rawText := rawTextElements[lastStart]
+		lastStart = ""
 		switch tokenType {
 		case html.ErrorToken:
 			if err = tokenizer.Err(); err == io.EOF {
@@ -111,10 +114,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		case html.TextToken:
 			token := tokenizer.Token()
 			if strings.Trim(token.Data, " \n\t") != "" {
-				write(`html.Text("` + escape(token.Data) + `"),`)
+				if rawText {
+					write(`html.Text([]byte("` + escape(token.Data) + `")),`)
+				} else {
+					write(`html.Text("` + escape(token.Data) + `"),`)
+				}
 			}
 		case html.StartTagToken:
 			token := tokenizer.Token()
+			lastStart = token.Data
 			writeElementStart(token.Data, token.Attr, voidElements[token.Data])
 		case html.SelfClosingTagToken:
 			token := tokenizer.Token()
@@ -170,6 +178,18 @@ var voidElements = map[string]bool{
 	"wbr":    true,
 }
 
+// rawTextElements are the elements whose text is not escaped
+var rawTextElements = map[string]bool{
+	"iframe":    true,
+	"noembed":   true,
+	"noframes":  true,
+	"noscript":  true,
+	"plaintext": true,
+	"script":    true,
+	"style":     true,
+	"xmp":       true,
+}
+
 func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[string]bool) {
 	elems = map[string]any{
 		"a":          A,
diff --git a/svg/generator.go b/svg/generator.go
index 507955a..19e44ff 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -95,8 +95,11 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	}
 	write("var template = aitch.Collection(")
 	incIndent()
+	lastStart := ""
 	for err == nil && cw.err == nil && !eof {
 		tokenType := tokenizer.Next()
+		rawText := rawTextElements[lastStart]
+		lastStart = ""
 		switch tokenType {
 		case html.ErrorToken:
 			if err = tokenizer.Err(); err == io.EOF {
@@ -106,10 +109,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		case html.TextToken:
 			token := tokenizer.Token()
 			if strings.Trim(token.Data, " \n\t") != "" {
-				write(`svg.Text("` + escape(token.Data) + `"),`)
+				if rawText {
+					write(`svg.Text([]byte("` + escape(token.Data) + `")),`)
+				} else {
+					write(`svg.Text("` + escape(token.Data) + `"),`)
+				}
 			}
 		case html.StartTagToken:
 			token := tokenizer.Token()
+			lastStart = token.Data
 			writeElementStart(token.Data, token.Attr, false)
 		case html.SelfClosingTagToken:
 			token := tokenizer.Token()
@@ -142,6 +150,18 @@ func (cw *codeWriter) write(data []byte) {
 	}
 }
 
+// rawTextElements are the elements whose text is not escaped
+var rawTextElements = map[string]bool{
+	"iframe":    true,
+	"noembed":   true,
+	"noframes":  true,
+	"noscript":  true,
+	"plaintext": true,
+	"script":    true,
+	"style":     true,
+	"xmp":       true,
+}
+
 func mappings() (elems map[string]any, attrs map[string]any) {
 	elems = map[string]any{
 		"altGlyph":            AltGlyph,
-- 
2.43.0


From 774111cc535e488eaab3a58be78513002dd7ae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 16/20] fix: GenerateCode keeps doctype identifiers and
 attributes named aria- or data- as they are

---
 html/generator.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index 00a4d2e..3d88e14 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -137,7 +137,12 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			write(`html.Comment("` + escape(token.Data) + `"),`)
 		case html.DoctypeToken:
 			token := tokenizer.Token()
-			write(`html.PI("DOCTYPE", "` + escape(token.Data) + `"),`)
+			if strings.ContainsAny(token.Data, `"'&<>`) {
+				// public and system identifiers are not to be escaped when rendered
+				write(`html.PI("DOCTYPE", []byte("` + escape(token.Data) + `")),`)
+			} else {
+				write(`html.PI("DOCTYPE", "` + escape(token.Data) + `"),`)
+			}
 		}
 	}
 	if err == nil {
@@ -302,7 +307,6 @@ func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[strin
 		"action":              Action,
 		"allowfullscreen":     AllowFullScreen,
 		"alt":                 Alt,
-		"aria-":               Aria,
 		"aria-atomic":         AriaAtomic,
 		"aria-busy":           AriaBusy,
 		"aria-checked":        AriaChecked,
@@ -344,7 +348,6 @@ func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[strin
 		"contenteditable":     ContentEditable,
 		"controls":            Controls,
 		"crossorigin":         CrossOrigin,
-		"data-":               Data,
 		"datetime":            DateTime,
 		"default":             Default,
 		"defer":               Defer,
-- 
2.43.0


From ad8352dd1184e662564b24dc9a0ac51a47dc9257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 17/20] fix: imperative start tags combine attributes by the
 same rules as declared elements

---
 imperative.go | 57 ++++++++-------------------------------------------
 1 file changed, 8 insertions(+), 49 deletions(-)

diff --git a/imperative.go b/imperative.go
index 924fbf6..b369c87 100644
--- a/imperative.go
+++ b/imperative.go
@@ -80,60 +80,19 @@ func (ic *imperativeContext) WriteNodes(nodes ...Node) {
 }
 
 func (ic *imperativeContext) Start(elementName []byte, isVoid bool, attrs ...Node) {
-	ic.ctx.Write(openAngleBracket)
-	ic.ctx.Write(elementName)
-	attValues := make([][]Value, 0, len(attrs))
-	attNames := make([][]byte, 0, len(attrs))
-	attIndices := map[string]int{}
+	attributes := make([]Node, 0, len(attrs))
 	for _, attr := range attrs {
 		if attr != nil && attr.Type() == AttributeNode {
-			if idx, ok := attIndices[attr.Name()]; ok {
-				if da, ok := attr.(*delimitedAttribute); ok {
-					avs := attValues[idx]
-					for _, dv := range da.values {
-						if len(avs) > 0 {
-							avs = append(avs, Value{value: da.delimiter})
-						}
-						avs = append(avs, dv)
-					}
-					attValues[idx] = avs
-				} else if va, ok := attr.(valuesNode); ok {
-					attValues[idx] = va.getValues()
-				} else {
-					attValues[idx] = nil
-				}
-			} else {
-				attIndices[attr.Name()] = len(attNames)
-				attNames = append(attNames, []byte(attr.Name()))
-				if da, ok := attr.(*delimitedAttribute); ok {
-					avs := make([]Value, 0, len(da.values)*2)
-					for i, v := range da.values {
-						if i > 0 {
-							avs = append(avs, Value{value: da.delimiter})
-						}
-						avs = append(avs, v)
-					}
-					attValues = append(attValues, avs)
-				} else if vn, ok := attr.(valuesNode); ok {
-					attValues = append(attValues, vn.getValues())
-				} else {
-					attValues = append(attValues, nil)
-				}
-			}
+			attributes = append(attributes, attr)
 		}
 	}
-	for a, attName := range attNames {
-		ic.ctx.Write(space)
-		ic.ctx.Write(attName)
-		if vs := attValues[a]; vs != nil {
-			ic.ctx.Write(attStart)
-			for _, vv := range vs {
-				_, _ = vv.render(ic.ctx)
-			}
-			ic.ctx.Write(attEnd)
-		}
+	// a start tag is the same as a void element - and its attributes are combined in the same way
+	start := &voidElement{
+		name:       elementName,
+		attributes: make([]Node, 0, len(attributes)),
+		attIndices: make(map[string]int, len(attributes)),
 	}
-	ic.ctx.Write(closeAngleBracket)
+	_ = start.addAttributes(attributes).Render(ic.ctx)
 	if !isVoid {
 		ic.openedStack = append(ic.openedStack, elementName)
 	}
-- 
2.43.0


From c04d883df0c46682a8ccc983acdf5b8ffa60d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:04 +0000
Subject: [PATCH 18/20] fix: header names given to htmx headers are escaped
 like any other string

---
 htmx/attributes.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/htmx/attributes.go b/htmx/attributes.go
index d6612c5..32336f9 100644
--- a/htmx/attributes.go
+++ b/htmx/attributes.go
@@ -3,7 +3,6 @@ package htmx
 import (
 	"github.com/go-andiamo/aitch"
 	"sort"
-	"strings"
 )
 
 // Get declares an "hx-get" attribute for issuing a GET request via htmx
@@ -313,7 +312,7 @@ func HeadersJS(value ...HeadersMap) aitch.Node {
 type HeadersMap map[string]any
 
 func (m HeadersMap) serialize(prefix []byte) []any {
-	result := make([]any, 0, (len(m)*2)+3)
+	result := make([]any, 0, (len(m)*4)+3)
 	if len(prefix) > 0 {
 		result = append(result, prefix)
 	}
@@ -325,7 +324,7 @@ func (m HeadersMap) serialize(prefix []byte) []any {
 	sort.Strings(keys)
 	delimit := ""
 	for _, key := range keys {
-		result = append(result, []byte(delimit+`'`+strings.ReplaceAll(key, `"`, `&quot;`)+`': `), m[key])
+		result = append(result, []byte(delimit+`'`), key, []byte(`': `), m[key])
 		delimit = ", "
 	}
 	result = append(result, []byte{'}'})
-- 
2.43.0


From caa4fd23413ebcf7ee0c1861ea5a011ed9471c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 19/20] fix: generated code keeps elements and attributes whose
 names aitch.Element and aitch.Attribute do not accept

---
 html/generator.go | 16 +++++++++++++++-
 svg/generator.go  | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index 3d88e14..fce5cea 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"reflect"
+	"regexp"
 	"runtime"
 	"strconv"
 	"strings"
@@ -57,8 +58,11 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
-		} else {
+		} else if validName.MatchString(name) {
 			start = `aitch.Element("` + escape(name) + `", `
+		} else {
+			// aitch.Element does not accept the name
+			start = `aitch.NewElement([]byte("` + escape(name) + `"), `
 		}
 		cw.write(indent)
 		cw.write([]byte(start))
@@ -80,6 +84,13 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 					cw.write([]byte(escape(a.Val)))
 					cw.write([]byte{'"', ')'})
 				}
+			} else if !validName.MatchString(a.Key) {
+				// aitch.Attribute does not accept the name
+				cw.write([]byte(`aitch.NewAttribute([]byte("`))
+				cw.write([]byte(escape(a.Key)))
+				cw.write([]byte(`"), "`))
+				cw.write([]byte(escape(a.Val)))
+				cw.write([]byte{'"', ')'})
 			} else {
 				cw.write([]byte(`aitch.Attribute("`))
 				cw.write([]byte(escape(a.Key)))
@@ -183,6 +194,9 @@ var voidElements = map[string]bool{
 	"wbr":    true,
 }
 
+// validName matches the names that aitch.Element and aitch.Attribute accept
+var validName = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9._\-:]*$`)
+
 // rawTextElements are the elements whose text is not escaped
 var rawTextElements = map[string]bool{
 	"iframe":    true,
diff --git a/svg/generator.go b/svg/generator.go
index 19e44ff..a895e71 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"reflect"
+	"regexp"
 	"runtime"
 	"strconv"
 	"strings"
@@ -57,8 +58,11 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
-		} else {
+		} else if validName.MatchString(name) {
 			start = `aitch.Element("` + escape(name) + `", `
+		} else {
+			// aitch.Element does not accept the name
+			start = `aitch.NewElement([]byte("` + escape(name) + `"), `
 		}
 		cw.write(indent)
 		cw.write([]byte(start))
@@ -75,6 +79,13 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 				cw.write([]byte{'(', '"'})
 				cw.write([]byte(escape(a.Val)))
 				cw.write([]byte{'"', ')'})
+			} else if !validName.MatchString(a.Key) {
+				// aitch.Attribute does not accept the name
+				cw.write([]byte(`aitch.NewAttribute([]byte("`))
+				cw.write([]byte(escape(a.Key)))
+				cw.write([]byte(`"), "`))
+				cw.write([]byte(escape(a.Val)))
+				cw.write([]byte{'"', ')'})
 			} else {
 				cw.write([]byte(`aitch.Attribute("`))
 				cw.write([]byte(escape(a.Key)))
@@ -150,6 +161,9 @@ func (cw *codeWriter) write(data []byte) {
 	}
 }
 
+// validName matches the names that aitch.Element and aitch.Attribute accept
+var validName = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9._\-:]*$`)
+
 // rawTextElements are the elements whose text is not escaped
 var rawTextElements = map[string]bool{
 	"iframe":    true,
-- 
2.43.0


From c2440015ebc635e1127278998c93386bfe2e7786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 20/20] fix: generated code keeps the markup after a
 self-closed element whose contents would be raw text

---
 html/generator.go | 2 ++
 svg/generator.go  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/html/generator.go b/html/generator.go
index fce5cea..43c9d6f 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -136,6 +136,8 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			lastStart = token.Data
 			writeElementStart(token.Data, token.Attr, voidElements[token.Data])
 		case html.SelfClosingTagToken:
+			// it is closed - so what follows is not its raw text
+			tokenizer.NextIsNotRawText()
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
 		case html.EndTagToken:
diff --git a/svg/generator.go b/svg/generator.go
index a895e71..e92ee31 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -131,6 +131,8 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			lastStart = token.Data
 			writeElementStart(token.Data, token.Attr, false)
 		case html.SelfClosingTagToken:
+			// it is closed - so what follows is not its raw text
+			tokenizer.NextIsNotRawText()
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
 		case html.EndTagToken:
-- 
2.43.0

